#!/usr/bin/env python3
"""Show that the laws of the models are not vacuous: change the specification in small ways; TLC must find a violated law each time.

    specmut.py [NAME...]        prints one line per change: killed by which law, or SURVIVED
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
# name, model, module to change, old text, new text
M = [
    ('save-no-restore', 'SaveProtocol', 'SaveProtocol', "IF backedUp THEN main' = bak /\\ bak' = None ELSE", "IF FALSE THEN main' = bak /\\ bak' = None ELSE"),
    ('save-copy-late', 'SaveProtocol', 'SaveProtocol', "bak' = main /\\ main' = None", "bak' = bak /\\ main' = None"),
    ('save-pretend', 'SaveProtocol', 'SaveProtocol', "FailFill == pc = \"fill\" /\\ Fail(\"restore\")", "FailFill == pc = \"fill\" /\\ Fail(\"done\")"),
    ('config-drop', 'MC_Config', 'Config', 'IF m.opt[k] = "T" THEN "yes" ELSE "no"', 'IF m.opt[k] = "T" THEN "yes" ELSE "junk"'),
    ('config-adds', 'MC_Config', 'Config', 'set |-> [k \\in DOMAIN m.set |->', 'set |-> [k \\in DOMAIN m.set \\cup DOMAIN f.set |->'),
    ('count-codes', 'MC_Count', 'Count', 'IF c # 0 THEN Without(s, c + 1', 'IF c # 0 THEN Without(s, c'),
    ('count-dash', 'MC_Count', 'Count', '{"—", "–"}', '{"—"}'),
    ('markup-leak', 'MC_Markup', 'Markup', 'SubSeq(req, 1, Max(S) - 1) \\o SubSeq(req, Max(S) + 1, Len(req))', 'req'),
    ('markup-lost', 'MC_Markup', 'Markup', 'IF x = "" THEN runs ELSE AddRun', 'IF x \\in {"", " "} THEN runs ELSE AddRun'),
    ('markup-merge', 'MC_Markup', 'Markup', 'THEN SubSeq(runs, 1, Len(runs) - 1) \\o <<[r EXCEPT', 'THEN runs \\o <<[r EXCEPT'),
    ('doc-nesting', 'MC_Doc', 'Doc', '{"_manuscript", "_scenes"} /\\ cls', '{"_manuscript"} /\\ cls'),
    ('doc-once', 'MC_Doc', 'Doc', '[] kind = "_notes" -> {"notes"}', '[] kind = "_notes" -> {"notes", "normal"}'),
    ('doc-agree', 'MC_Doc', 'Doc', '{"", "_manuscript", "_proof", "_scenes", "_brf_synopsis"} -> {"normal"}', '{"", "_manuscript", "_proof", "_brf_synopsis"} -> {"normal"}'),
    ('doc-heading', 'MC_Doc', 'Doc', '[] kind = "_manuscript" /\\ cls = "part" -> <<ChSec(c), H("h1", ShownTitle(c))>>', '[] kind = "_manuscript" /\\ cls = "part" -> <<ChSec(c), H("h1", "")>>'),
    ('sections-outside', 'MC_Sections', 'Import', 'ELSE IF st.ch # "" THEN TitleChapter(st, b) ELSE st', 'ELSE IF st.ch # "" THEN [st EXCEPT !.n.scs = Upd(@, "2", LAMBDA x : [x EXCEPT !.desc = "x"])] ELSE st'),
    ('sections-lose', 'MC_Sections', 'Import', 'IF LevelOf(b) = "h3" THEN st ELSE [st EXCEPT !.buf = st.buf \\o LinesOf(b)]', 'IF LevelOf(b) = "h3" THEN st ELSE [st EXCEPT !.buf = LinesOf(b)]'),
    ('sections-unknown', 'MC_Sections', 'Import', 'IF ~Known(st.n.scs, id) /\\ st.ch = "" THEN [st EXCEPT !.ok = FALSE]', 'IF ~Known(st.n.scs, id) THEN [st EXCEPT !.ok = FALSE]'),
    ('sections-desc', 'MC_Sections', 'Import', 'ELSE IF LevelOf(b) \\in {"h1", "h2"} THEN [TitleChapter(st, b) EXCEPT !.buf = <<>>]', 'ELSE IF LevelOf(b) \\in {"h1", "h2"} THEN [SetChapter(st, st.ch, LAMBDA c : [c EXCEPT !.title = "x"]) EXCEPT !.buf = <<>>]'),
    ('work-lose', 'MC_Work', 'Import', 'ELSE IF st.buf = <<>> THEN [st EXCEPT !.sc = ""]', 'ELSE IF Len(st.buf) < 2 THEN [st EXCEPT !.sc = ""]'),
    ('work-level', 'MC_Work', 'Import', 'IF LevelOf(b) = "h1" THEN "1" ELSE "0"])', 'IF LevelOf(b) = "h2" THEN "1" ELSE "0"])'),
    ('work-divider', 'MC_Work', 'Import', '[] lev = "h4" -> IF IsDivider(b) THEN CloseScene(st) ELSE st', '[] lev = "h4" -> st'),
    ('work-title', 'MC_Work', 'Import', 'k == IF st1.buf = <<>> THEN LeadingComments(lcs) ELSE 0', 'k == LeadingComments(lcs)'),
    ('outline-ok', 'MC_Work', 'Import', 'IF st.ch = "" THEN [st EXCEPT !.ok = FALSE] ELSE AddNewScene', 'IF st.ch = "" THEN st ELSE AddNewScene'),
    ('codec-unused', 'MC_Codec', 'Yw7', 'e1 == IF t = "0" THEN DropKids(e, {"Unused"})', 'e1 == IF FALSE THEN DropKids(e, {"Unused"})'),
    ('codec-fields', 'MC_Codec', 'Yw7', '= DropKids(@, {"Field_SceneType"})] ELSE e1)', '= DropKids(@, {"Field_X", "Field_SceneType"})] ELSE e1)'),
    ('codec-day', 'MC_Codec', 'Yw7', 'DropKids(e, {"Day", "Hour", "Minute"})', 'DropKids(e, {"Hour", "Minute"})'),
    ('codec-clear', 'MC_Codec', 'Yw7', '"clear" -> DropKids(e, StartTags)', '"clear" -> e'),
    ('codec-seconds', 'MC_Codec', 'Yw7', 's.date \\o " " \\o FullTime(s.time)', 's.date \\o " " \\o s.time'),
    ('sheet-order', 'MC_Sheet', 'Import', 'LET ids == Dedup(Map(rows, LAMBDA x : x.id))', 'LET ids == Dedup(Map(l, LAMBDA x : x.id) \\o Map(rows, LAMBDA x : x.id))'),
    ('sheet-clear', 'MC_Sheet', 'Import', 'Col(old, x) == IF T(old) = NULL /\\ x = "" THEN old', 'Col(old, x) == IF x = "" THEN old'),
    ('sheet-tags', 'MC_Sheet', 'Import', 'ColTags(old, x) == IF LST(old) = <<>> /\\ x = "" THEN old', 'ColTags(old, x) == IF x = "" THEN old'),
    ('sheet-first', 'MC_Sheet', 'Import', 'FoldLeft(LAMBDA e, x : From(e, x.r), Old(id), SelectSeq(rows, LAMBDA x : x.id = id))', 'From(Old(id), SelectSeq(rows, LAMBDA x : x.id = id)[1].r)'),
    ('sheet-rating', 'MC_Sheet', 'Import', 'RatingFrom(x) == IF x \\in {"2", "3", "4", "5", "6", "7", "8", "9", "10"}', 'RatingFrom(x) == IF x \\in {"2", "3", "4", "5", "6", "7", "8", "9"}'),
    ('sheet-status', 'MC_Sheet', 'Import', 'ToString(IndexOf(CellAt(r, 18), StatusNames)) ELSE s.status]', 'ToString(IndexOf(CellAt(r, 18), StatusNames)) ELSE "1"]'),
    ('sheet-scenes', 'MC_Sheet', 'Import', '!.f4 = RatingFrom(CellAt(r, 15)),', '!.f4 = RatingFrom(CellAt(r, 15)), !.chars = <<>>,'),
    ('sheet-column', 'MC_Sheet', 'Sheet', 'IF e.major = "T" THEN "Major" ELSE "Minor"', '"Minor"'),
    ('sheet-duplicates', 'MC_Sheet', 'Import', 'TagsIn(x) == Dedup(SelectSeq(Map(SplitComma(x), Strip), LAMBDA e : e # ""))', 'TagsIn(x) == SelectSeq(Map(SplitComma(x), Strip), LAMBDA e : e # "")'),
    ('xref-numbers', 'MC_Xref', 'Doc', 'ch |-> i]]])', 'ch |-> j]]])'),
    ('xref-empty', 'MC_Xref', 'Doc', 'IN IF ks = <<>> THEN <<>> ELSE <<H("h2", h)>>', 'IN IF FALSE THEN <<>> ELSE <<H("h2", h)>>'),
    ('xref-unused', 'MC_Xref', 'Doc', '[] s.typ = "3" -> P1("scene_20_mark_20_unused", RStrip(no \\o rest \\o " (Unused)"))', '[] s.typ = "3" -> P1("scene_20_mark_20_unused", RStrip(no \\o rest))'),
    ('xref-tags', 'MC_Xref', 'Doc', 'ElemTags(l) == Dedup(Concat([i \\in DOMAIN l |-> LST(l[i].tags)]))', 'ElemTags(l) == Concat([i \\in DOMAIN l |-> LST(l[i].tags)])'),
    ('xref-link', 'MC_Xref', 'Doc', '"_manuscript.odt#ScID:" \\o s.id', '"_manuscript.odt#ScID:" \\o no'),
    ('xref-items', 'MC_Xref', 'Doc', 'Lists(n.its, "Item", LAMBDA s : s.items)', 'Lists(n.its, "Item", LAMBDA s : s.locs)'),
    ('purge-line', 'MC_Purge', 'Purge', '/\\ \\A m \\in (j + 5)..k : Ch(s, m) # "\\n"}', ' }'),
    ('purge-slashes', 'MC_Purge', 'Purge', 'IF i <= Len(s) /\\ Ch(s, i) = "/" THEN Slashes(s, i + 1) ELSE i', 'IF i <= Len(s) /\\ Ch(s, i) = "/" THEN i + 1 ELSE i'),
    ('purge-last', 'MC_Purge', 'Purge', 'IF ends = {} THEN 0 ELSE Min(ends)', 'IF ends = {} THEN 0 ELSE Max(ends)'),
    ('purge-birth', 'MC_Purge', 'Purge', '!.link = "", !.birth = "", !.death = ""', '!.link = "", !.death = ""'),
    ('purge-mode', 'MC_Purge', 'Purge', 'n.scs[i].mode \\notin {NULL, "", "0"}', 'n.scs[i].mode \\notin {NULL, ""}'),
    ('purge-twice', 'MC_Purge', 'Purge', 'NoMarks(s, e + 1, acc)', 'NoMarks(s, e, acc)'),
    ('split-loses', 'MC_Split', 'Split', 'IF p.ls = <<>> THEN st2 ELSE AddScene(st2, sid, p, NoHead, 1)', 'st2'),
    ('split-id', 'MC_Split', 'Split', 'id == FreshId(IdSet(st.scs))', 'id == sid'),
    ('split-place', 'MC_Split', 'Split', "!.cur.scs = Append(st.cur.scs, id), !.k = k", "!.cur.scs = <<id>> \\o st.cur.scs, !.k = k"),
    ('split-title', 'MC_Split', 'Split', '!.title = IF h.title # "" THEN h.title ELSE SplitTitle(parent, k)', '!.title = SplitTitle(parent, k)'),
    ('convert-backup', 'MC_Convert', 'Convert', '(j.target \\o ".bak") :> f[j.target]', '(j.target \\o ".old") :> f[j.target]'),
    ('convert-create', 'MC_Convert', 'Convert', 'j.target \\notin DOMAIN f /\\ ~Locked(f, j.target)', '~Locked(f, j.target)'),
    ('convert-consent', 'MC_Convert', 'Convert', '(j.target \\in DOMAIN f => yes)', 'TRUE'),
    ('convert-lock', 'MC_Convert', 'Convert', 'yes /\\ ~Locked(f, j.target)', 'yes'),
    ('window-half', 'MC_Window', 'Window', 'ELSE [Closed(v) EXCEPT', 'ELSE [Shown2(v, name, files["a.yw7"]) EXCEPT'),
    ('window-menu', 'MC_Window', 'Window', '!.menu = TRUE', '!.menu = FALSE'),
    ('window-status', 'MC_Window', 'Window', '!.text = "", !.kept = ""', '!.text = ""'),
    ('report-kind', 'MC_Report', 'Report', 'Kind(m) == IF IsErr(m) THEN "error" ELSE "success"', 'Kind(m) == "success"'),
    ('report-stays', 'MC_Report', 'Report', '[s EXCEPT !.opts = s.geo, !.gone = TRUE]', '[s EXCEPT !.gone = TRUE, !.opts = "1x1"]'),
    ('report-silent', 'MC_Report', 'Report', 's.ui = "silent" /\\ IsErr(a.arg)', 's.ui = "silent" /\\ FALSE'),
    ('data-stale', 'MC_Data', 'MC_Data', 'files\' = UpTo(IF a.o = "same" THEN held ELSE None, world) /\\', 'files\' = UpTo(held, files) /\\'),
    ('data-order', 'MC_Data', 'MC_Data', 'IN [i \\in DOMAIN l |-> CHOOSE e \\in {all[j] : j \\in DOMAIN all} : e.id = l[i].id]', 'IN all'),
    ('custom-husk', 'MC_Custom', 'Custom', 'THEN [e EXCEPT !.k[Min(KidIdx(e, "Fields"))] = DropKids(@, {f})] ELSE e', 'THEN e ELSE e'),
    ('custom-others', 'MC_Custom', 'Custom', 'THEN [e EXCEPT !.k[Min(KidIdx(e, "Fields"))] = DropKids(@, {f})] ELSE e', 'THEN DropKids(e, {"Fields"}) ELSE e'),
    ('translate-forget', 'MC_Translate', 'Translate', 'UpdatedDict(po, dict) == Over(Filled(po), Filled(dict))', 'UpdatedDict(po, dict) == Filled(po)'),
    ('translate-prefer', 'MC_Translate', 'Translate', 'Over(Filled(po), Filled(dict)) ELSE', 'Over(Filled(dict), Filled(po)) ELSE'),
    ('translate-extra', 'MC_Translate', 'Translate', 'IN [m \\in pot |->', 'IN [m \\in pot \\cup DOMAIN po |->'),
    ('launch-two', 'MC_Launch', 'Launch', 'args |-> <<path>>]>>', 'args |-> <<path>>], [way |-> Ways[Chosen(has)], args |-> <<path>>]>>'),
    ('launch-next', 'MC_Launch', 'Launch', 'THEN 0 ELSE Min(S)', 'THEN 0 ELSE 3'),
    ('lang-implausible', 'MC_Lang', 'Yw7', 'Len(lang) = 2 /\\ country # NULL /\\ Len(country) = 2', 'Len(lang) = 2 /\\ country # NULL'),
    ('lang-declared', 'MC_Lang', 'MC_Lang', 'missing == SelectSeq(langs, LAMBDA y : ~InSeq(y, declared))', 'missing == <<>>'),
    ('lang-twice', 'MC_Lang', 'MC_Lang', 'missing == SelectSeq(langs, LAMBDA y : ~InSeq(y, declared))', 'missing == langs'),
    ('lang-frame', 'MC_Lang', 'MC_Lang', 'old == KidsIn(r, "PROJECTVARS")', 'old == SelectSeq(KidsIn(r, "PROJECTVARS"), LAMBDA v : VarTitle(v) # "My")'),
    ('template-divider', 'MC_Template', 'Template', 'IF first \\/ s.app = "T" THEN ""', 'IF s.app = "T" THEN ""'),
    ('template-number', 'MC_Template', 'Template', 'k == IF sc = "normal" THEN st.k + 1 ELSE st.k', 'k == st.k + 1'),
    ('template-total', 'MC_Template', 'Template', 'w == IF sc = "normal" THEN st.w + WordsOf(s.content) ELSE st.w', 'w == st.w + WordsOf(s.content)'),
    ('template-hidden', 'MC_Template', 'Template', '[] cls = "code" -> FALSE', '[] cls = "code" -> TRUE'),
]


def run(name, model, module, old, new):
    wd = tempfile.mkdtemp(prefix='specmut-')
    try:
        for f in os.listdir(SPEC):
            shutil.copy(os.path.join(SPEC, f), wd)
        p = os.path.join(wd, module + '.tla')
        with open(p) as f:
            s = f.read()
        if s.count(old) < 1:
            return 'NOT APPLICABLE'
        with open(p, 'w') as f:
            f.write(s.replace(old, new, 1))
        r = subprocess.run(['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx4g', '-cp', CP, 'tlc2.TLC', '-workers', '4', '-metadir', os.path.join(wd, 'm'), '-config', model + '.cfg', model],
                           cwd=wd, capture_output=True, text=True, timeout=900, env={k: v for k, v in os.environ.items() if k != 'OUT'})
        m = re.search(r'(?:Invariant|property) (\w+) (?:is|was) violated|Action property (\w+)', r.stdout)
        if m:
            return 'killed by ' + (m.group(1) or m.group(2))
        if r.returncode == 0:
            return 'SURVIVED'
        return 'error: ' + next((x for x in r.stdout.split('\n') if x.startswith('Error') or 'error' in x.lower()), str(r.returncode))[:150]
    finally:
        shutil.rmtree(wd)


if __name__ == '__main__':
    for m in M:
        if m[3] is not None and (len(sys.argv) < 2 or m[0] in sys.argv[1:]):
            print(m[0], '|', m[1], '|', run(*m), flush=True)
