"""A window toolkit that only remembers what it is told (there is no display here)."""
import sys
import types


class Widget:

    def __init__(self, *args, **kw):
        self.__dict__['options'] = dict(kw)
        self.__dict__['entries'] = []
        self.__dict__['said'] = {}
        log.setdefault(type(self).__name__, []).append(self)

    def config(self, cnf=None, **kw):
        self.options.update(cnf or {})
        self.options.update(kw)

    configure = config

    def cget(self, key):
        return self.options.get(key, 'SystemDefault')

    __getitem__ = cget

    def __setitem__(self, key, value):
        self.options[key] = value

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *args, **kw: calls.append((self, name, args))

    # menus
    def _add(self, **kw):
        self.entries.append(dict(kw))

    def add_command(self, cnf=None, **kw):
        self._add(**dict(cnf or {}, **kw))

    add_cascade = add_separator = add_checkbutton = add_radiobutton = add_command

    def entryconfig(self, index, cnf=None, **kw):
        kw = dict(cnf or {}, **kw)
        if isinstance(index, int):
            self.entries[index].update(kw)
            return
        for e in self.entries:
            if e.get('label') == index:
                e.update(kw)
                return
        raise RuntimeError(f'no menu entry {index!r}')

    entryconfigure = entryconfig

    # windows
    def title(self, text=None):
        if text is not None:
            self.said['title'] = text
        return self.said.get('title', '')

    wm_title = title

    def geometry(self, text=None):
        if text is not None:
            self.said['geometry'] = text
        return self.said.get('geometry', '')

    winfo_geometry = wm_geometry = geometry


log = {}          # class name -> widgets made
boxes = []        # (function, args)
calls = []        # (widget, method, args)
answer = {}       # function -> what the user does


def box(name):

    def show(*args, **kw):
        boxes.append((name, args, kw))
        return answer.get(name)

    return show


def install():
    tk = types.ModuleType('tkinter')
    for name in ('Tk', 'Menu', 'Frame', 'Label', 'Button', 'Text', 'Toplevel', 'Entry', 'Canvas', 'Pack', 'Grid', 'Place', 'PhotoImage', 'Scrollbar', 'StringVar'):
        setattr(tk, name, type(name, (Widget,), {}))
    tk.END, tk.LEFT, tk.RIGHT, tk.BOTH, tk.X, tk.Y, tk.TOP, tk.BOTTOM, tk.W, tk.E = 'end', 'left', 'right', 'both', 'x', 'y', 'top', 'bottom', 'w', 'e'
    tk.NORMAL, tk.DISABLED = 'normal', 'disabled'
    tk.TclError = type('TclError', (Exception,), {})
    mb = types.ModuleType('tkinter.messagebox')
    for name in ('askyesno', 'askokcancel', 'askquestion', 'askyesnocancel', 'askretrycancel', 'showerror', 'showinfo', 'showwarning'):
        setattr(mb, name, box(name))
    fd = types.ModuleType('tkinter.filedialog')
    for name in ('askopenfilename', 'asksaveasfilename', 'askdirectory'):
        setattr(fd, name, box(name))
    ttk = types.ModuleType('tkinter.ttk')
    for name in ('Frame', 'Label', 'Button', 'Scrollbar', 'Entry', 'Combobox', 'Treeview', 'Notebook'):
        setattr(ttk, name, type(name, (Widget,), {}))
    font = types.ModuleType('tkinter.font')
    font.Font = type('Font', (Widget,), {})
    font.nametofont = lambda name: font.Font()
    tk.messagebox, tk.filedialog, tk.ttk, tk.font = mb, fd, ttk, font
    for name, mod in (('', tk), ('.messagebox', mb), ('.filedialog', fd), ('.ttk', ttk), ('.font', font)):
        sys.modules['tkinter' + name] = mod
    return tk


def reset():
    log.clear()
    boxes.clear()
    calls.clear()
    answer.clear()
