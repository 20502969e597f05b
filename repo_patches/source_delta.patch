From 0f138264fb4aba778481124a7cb542505c8fc0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 01/79] fix: keep vertical bars when reading a yw7 project

---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 1de5d10..c82b3e8 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -152,7 +152,7 @@ class Yw7File(File):
             except Exception as ex:
                 raise Error(f'{_("Can not process file")} - {str(ex)}')
 
-        xmlText = re.sub('[\x00-\x08|\x0b-\x0c|\x0e-\x1f]', '', xmlText)
+        xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
         root = ET.fromstring(xmlText)
         xmlText = None
         # saving memory
-- 
2.43.0


From 596e04321e45a88972be8408538afb6c4f305efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 02/79] fix: write the scene items the way they are read

---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index c82b3e8..313d237 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -529,7 +529,7 @@ class Yw7File(File):
             if prjScn.items:
                 xmlItems = ET.SubElement(xmlScene, 'Items')
                 for ItId in prjScn.items:
-                    ET.SubElement(xmlItems, 'ItmID').text = ItId
+                    ET.SubElement(xmlItems, 'ItemID').text = ItId
 
         def build_chapter_subtree(xmlChapter, prjChp):
             # This is how yWriter 7.1.3.0 writes the chapter type:
-- 
2.43.0


From b8d76ee4cc781cfc94191ed79433e5aa52a4740b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 03/79] fix: unescape xml entities in CDATA sections only

---
 src/pywriter/yw/yw7_file.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 313d237..9f1f070 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1103,18 +1103,8 @@ class Yw7File(File):
         
         Overrides the superclass method.
         """
-        if text:
-            # Apply XML predefined entities.
-            XML_REPLACEMENTS = [
-                ('&', '&amp;'),
-                ('>', '&gt;'),
-                ('<', '&lt;'),
-                ("'", '&apos;'),
-                ('"', '&quot;'),
-                ]
-            for yw, xm in XML_REPLACEMENTS:
-                text = text.replace(yw, xm)
-        else:
+        # The XML predefined entities are applied when writing the element tree.
+        if not text:
             text = ''
         return text
 
@@ -1125,12 +1115,20 @@ class Yw7File(File):
             filePath: str -- path to xml file.
         
         Read the xml file, put a header on top, insert the missing CDATA tags,
-        and replace xml entities by plain text (unescape). Overwrite the .yw7 xml file.
+        and replace xml entities by plain text (unescape) within the CDATA sections.
+        Overwrite the .yw7 xml file.
         Raise the "Error" exception in case of error. 
         
         Note: The path is given as an argument rather than using self.filePath. 
         So this routine can be used for yWriter-generated xml files other than .yw7 as well. 
         """
+
+        def to_plain_text(match):
+            """Return a CDATA section with the xml entities replaced by plain text."""
+            # A CDATA section must not contain its own end marker.
+            content = unescape(match.group(2)).replace(']]>', ']]]]><![CDATA[>')
+            return f'{match.group(1)}{content}{match.group(3)}'
+
         with open(filePath, 'r', encoding='utf-8') as f:
             text = f.read()
         lines = text.split('\n')
@@ -1141,12 +1139,12 @@ class Yw7File(File):
                 line = re.sub(fr'\<\/{tag}\>', f']]></{tag}>', line)
             newlines.append(line)
         text = '\n'.join(newlines)
-        text = text.replace('[CDATA[ \n', '[CDATA[')
-        text = text.replace('\n]]', ']]')
+        text = text.replace('<![CDATA[ \n', '<![CDATA[')
+        text = text.replace('\n]]></', ']]></')
         if not self.novel.chapters:
             text = text.replace('<CHAPTERS />', '<CHAPTERS></CHAPTERS>')
             # otherwise, yWriter fails to parse the file if there are no chapters.
-        text = unescape(text)
+        text = re.sub(r'(<!\[CDATA\[)(.*?)(\]\]></)', to_plain_text, text, flags=re.DOTALL)
         try:
             with open(filePath, 'w', encoding='utf-8') as f:
                 f.write(text)
-- 
2.43.0


From 12272a9576d77a03697e5b9e4e02d770dd1c0c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 04/79] fix: escape title, author, and summary in the ODF
 metadata

---
 src/pywriter/odf/odf_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 85d1186..7dd9158 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -11,6 +11,7 @@ import zipfile
 import tempfile
 from shutil import rmtree
 from datetime import datetime
+from xml.sax.saxutils import escape
 from string import Template
 from pywriter.pywriter_globals import *
 from pywriter.file.file_export import FileExport
@@ -147,9 +148,9 @@ class OdfFile(FileExport):
 
         #--- Generate meta.xml with actual document metadata.
         metaMapping = dict(
-            Author=self.novel.authorName,
-            Title=self.novel.title,
-            Summary=f'<![CDATA[{self.novel.desc}]]>',
+            Author=escape(str(self.novel.authorName)),
+            Title=escape(str(self.novel.title)),
+            Summary=f'<![CDATA[{self.novel.desc}]]>'.replace(']]>', ']]]]><![CDATA[>', str(self.novel.desc).count(']]>')),
             Datetime=datetime.today().replace(microsecond=0).isoformat(),
         )
         template = Template(self._META_XML)
-- 
2.43.0


From ebf31c42251d54c16c3a3d7c4eff8d9b6e6a8378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 05/79] fix: escape alternate and full names in the ODT
 description exports

---
 src/pywriter/odt_w/odt_w_characters.py | 4 ++--
 src/pywriter/odt_w/odt_w_items.py      | 2 +-
 src/pywriter/odt_w/odt_w_locations.py  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_characters.py b/src/pywriter/odt_w/odt_w_characters.py
index 82209c0..aa1b33b 100644
--- a/src/pywriter/odt_w/odt_w_characters.py
+++ b/src/pywriter/odt_w/odt_w_characters.py
@@ -54,7 +54,7 @@ class OdtWCharacters(OdtWriter):
         """
         characterMapping = OdtWriter._get_characterMapping(self, crId)
         if self.novel.characters[crId].aka:
-            characterMapping['AKA'] = f' ("{self.novel.characters[crId].aka}")'
+            characterMapping['AKA'] = f' ("{self._convert_from_yw(self.novel.characters[crId].aka, True)}")'
         if self.novel.characters[crId].fullName:
-            characterMapping['FullName'] = f'/{self.novel.characters[crId].fullName}'
+            characterMapping['FullName'] = f'/{self._convert_from_yw(self.novel.characters[crId].fullName, True)}'
         return characterMapping
diff --git a/src/pywriter/odt_w/odt_w_items.py b/src/pywriter/odt_w/odt_w_items.py
index a05d86b..c7ad7f2 100644
--- a/src/pywriter/odt_w/odt_w_items.py
+++ b/src/pywriter/odt_w/odt_w_items.py
@@ -39,5 +39,5 @@ class OdtWItems(OdtWriter):
         """
         itemMapping = super()._get_itemMapping(itId)
         if self.novel.items[itId].aka:
-            itemMapping['AKA'] = f' ("{self.novel.items[itId].aka}")'
+            itemMapping['AKA'] = f' ("{self._convert_from_yw(self.novel.items[itId].aka, True)}")'
         return itemMapping
diff --git a/src/pywriter/odt_w/odt_w_locations.py b/src/pywriter/odt_w/odt_w_locations.py
index 33c8b19..9b366f0 100644
--- a/src/pywriter/odt_w/odt_w_locations.py
+++ b/src/pywriter/odt_w/odt_w_locations.py
@@ -39,5 +39,5 @@ class OdtWLocations(OdtWriter):
         """
         locationMapping = super()._get_locationMapping(lcId)
         if self.novel.locations[lcId].aka:
-            locationMapping['AKA'] = f' ("{self.novel.locations[lcId].aka}")'
+            locationMapping['AKA'] = f' ("{self._convert_from_yw(self.novel.locations[lcId].aka, True)}")'
         return locationMapping
-- 
2.43.0


From 02bf04599a5bc622be66e82a81fdf40b6b64c26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 06/79] fix: escape tags in the cross reference

---
 src/pywriter/odt_w/odt_w_xref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_w/odt_w_xref.py b/src/pywriter/odt_w/odt_w_xref.py
index 5a7bf14..b73c613 100644
--- a/src/pywriter/odt_w/odt_w_xref.py
+++ b/src/pywriter/odt_w/odt_w_xref.py
@@ -213,7 +213,7 @@ $SceneNumber (Ch $Chapter) $Title (ToDo)
             tag: str -- a single scene tag.
         """
         tagMapping = dict(
-            Tag=tag,
+            Tag=self._convert_from_yw(tag, True),
         )
         return tagMapping
 
-- 
2.43.0


From 713d5039c4f86867038120859f98307c650b546a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 07/79] fix: escape the author name in exported comments

---
 src/pywriter/odt_w/odt_w_export.py    | 3 ++-
 src/pywriter/odt_w/odt_w_formatted.py | 2 +-
 src/pywriter/odt_w/odt_w_proof.py     | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_export.py b/src/pywriter/odt_w/odt_w_export.py
index 80efacd..486add8 100644
--- a/src/pywriter/odt_w/odt_w_export.py
+++ b/src/pywriter/odt_w/odt_w_export.py
@@ -108,7 +108,8 @@ class OdtWExport(OdtWFormatted):
             text = text.replace('\r', '@r@').replace('\n', '@n@')
             self._noteCounter = 0
             self._noteNumber = 0
-            simpleComment = (f'<office:annotation><dc:creator>{self.novel.authorName}'
+            authorName = self._convert_from_yw(self.novel.authorName, True).replace('\\', r'\\')
+            simpleComment = (f'<office:annotation><dc:creator>{authorName}'
                              '</dc:creator><text:p>\\1</text:p></office:annotation>'
                              )
             text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text)
diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index eed9e54..ec387c9 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -148,7 +148,7 @@ class OdtWFormatted(OdtWriter):
                 ('[/i]', '</text:span>'),
                 ('[b]', '<text:span text:style-name="Strong_20_Emphasis">'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{self.novel.authorName}</dc:creator><text:p>'),
+                ('/*', f'<office:annotation><dc:creator>{self._convert_from_yw(self.novel.authorName, True)}</dc:creator><text:p>'),
                 ('*/', '</text:p></office:annotation>'),
                 ]
 
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 9e95351..8a2535f 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -6,6 +6,7 @@ Published under the MIT License (https://opensource.org/licenses/mit-license.php
 """
 import re
 from string import Template
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.odt_w.odt_w_formatted import OdtWFormatted
 
@@ -64,7 +65,7 @@ class OdtWProof(OdtWFormatted):
                 ('\r', '\n'),
                 ('[/i]', '</text:span>'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{self.novel.authorName}</dc:creator><text:p>'),
+                ('/*', f'<office:annotation><dc:creator>{escape(str(self.novel.authorName))}</dc:creator><text:p>'),
                 ('*/', '</text:p></office:annotation>'),
             ])
             i = 0
-- 
2.43.0


From b5ee4e56f16bf3fbc5f88dbb9f887e235d214aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 08/79] fix: escape ratings, characters, locations, and items
 in the scene list

---
 src/pywriter/ods_w/ods_w_scenelist.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pywriter/ods_w/ods_w_scenelist.py b/src/pywriter/ods_w/ods_w_scenelist.py
index 3b148f7..8e1ab53 100644
--- a/src/pywriter/ods_w/ods_w_scenelist.py
+++ b/src/pywriter/ods_w/ods_w_scenelist.py
@@ -218,6 +218,9 @@ class OdsWSceneList(OdsWriter):
         Extends the superclass template method.
         """
         sceneMapping = super()._get_sceneMapping(scId, sceneNumber, wordsTotal, lettersTotal)
+        for key in ('Field1', 'Field2', 'Field3', 'Field4', 'Characters', 'Locations', 'Items'):
+            if sceneMapping[key] is not None:
+                sceneMapping[key] = self._convert_from_yw(sceneMapping[key], True)
         if self.novel.scenes[scId].field1 == '1':
             sceneMapping['Field1'] = ''
         if self.novel.scenes[scId].field2 == '1':
-- 
2.43.0


From 46041cdad2e2d71370f6abdc9f55850f7ba65eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 09/79] fix: keep the text preceding a new chapter that begins
 with a scene heading

---
 src/pywriter/model/splitter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index 755c319..80d21bd 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -137,8 +137,9 @@ class Splitter:
                         desc = ''
                     if line.startswith(self.SCENE_SEPARATOR):
                         # Split the scene.
-                        file.novel.scenes[sceneId].sceneContent = '\n'.join(newLines)
-                        newLines = []
+                        if inScene:
+                            file.novel.scenes[sceneId].sceneContent = '\n'.join(newLines)
+                            newLines = []
                         sceneSplitCount += 1
                         sceneId = create_id(file.novel.scenes)
                         create_scene(sceneId, file.novel.scenes[scId], sceneSplitCount, title, desc)
-- 
2.43.0


From 8b33316b0a198a752b9e70513b36e0d964f04f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 10/79] fix: report a changed structure when a scene is split
 by a part divider

---
 src/pywriter/model/splitter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index 80d21bd..3ef86e6 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -175,6 +175,7 @@ class Splitter:
                             title = _('New Part')
                         create_chapter(chapterId, title, desc, 1)
                         srtChapters.append(chapterId)
+                        scenesSplit = True
                     elif not inScene:
                         # Append a scene without heading to a new chapter or part.
                         newLines.append(line)
-- 
2.43.0


From 62c3ecd5dcd9e73db15ee1304212c8ad59b17528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 11/79] fix: process scenes without a status

---
 src/pywriter/file/file_export.py | 2 +-
 src/pywriter/model/splitter.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index 9e5aded..055cd23 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -511,7 +511,7 @@ class FileExport(File):
             WordsTotal=wordsTotal,
             LetterCount=str(self.novel.scenes[scId].letterCount),
             LettersTotal=lettersTotal,
-            Status=Scene.STATUS[self.novel.scenes[scId].status],
+            Status=Scene.STATUS[self.novel.scenes[scId].status or 0],
             SceneContent=self._convert_from_yw(self.novel.scenes[scId].sceneContent),
             FieldTitle1=self._convert_from_yw(self.novel.fieldTitle1, True),
             FieldTitle2=self._convert_from_yw(self.novel.fieldTitle2, True),
diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index 3ef86e6..b08b04e 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -97,7 +97,7 @@ class Splitter:
                 parent.outcome = f'{WARNING}{parent.outcome}'
 
             # Reset the parent's status to Draft, if not Outline.
-            if parent.status > 2:
+            if parent.status is not None and parent.status > 2:
                 parent.status = 2
             newScene.status = parent.status
             newScene.scType = parent.scType
-- 
2.43.0


From 7ca3809b41e3e14cdd9eae5d8cac44934bdfb916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 12/79] fix: keep the spaces between text portions when reading
 ODT paragraphs

---
 src/pywriter/odt_r/odt_r_chapterdesc.py | 4 ++--
 src/pywriter/odt_r/odt_r_characters.py  | 2 +-
 src/pywriter/odt_r/odt_r_items.py       | 2 +-
 src/pywriter/odt_r/odt_r_locations.py   | 2 +-
 src/pywriter/odt_r/odt_r_manuscript.py  | 3 +--
 5 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_chapterdesc.py b/src/pywriter/odt_r/odt_r_chapterdesc.py
index c9e5133..d565276 100644
--- a/src/pywriter/odt_r/odt_r_chapterdesc.py
+++ b/src/pywriter/odt_r/odt_r_chapterdesc.py
@@ -37,7 +37,7 @@ class OdtRChapterDesc(OdtReader):
                 self._lines.append('\n')
             elif tag == 'h1' or tag == 'h2':
                 if not self.novel.chapters[self._chId].title:
-                    self.novel.chapters[self._chId].title = ''.join(self._lines)
+                    self.novel.chapters[self._chId].title = ''.join(self._lines).strip()
                 self._lines = []
 
     def handle_data(self, data):
@@ -49,4 +49,4 @@ class OdtRChapterDesc(OdtReader):
         Overrides the superclass method.
         """
         if self._chId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 93106cd..6e5972f 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -46,7 +46,7 @@ class OdtRCharacters(OdtReader):
         Overrides the superclass method.
         """
         if self._section is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the character section and save data.
diff --git a/src/pywriter/odt_r/odt_r_items.py b/src/pywriter/odt_r/odt_r_items.py
index d927bef..b3633ea 100644
--- a/src/pywriter/odt_r/odt_r_items.py
+++ b/src/pywriter/odt_r/odt_r_items.py
@@ -45,7 +45,7 @@ class OdtRItems(OdtReader):
         Overrides the superclass method.
         """
         if self._itId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the item section and save data.
diff --git a/src/pywriter/odt_r/odt_r_locations.py b/src/pywriter/odt_r/odt_r_locations.py
index e365407..6ac6cc2 100644
--- a/src/pywriter/odt_r/odt_r_locations.py
+++ b/src/pywriter/odt_r/odt_r_locations.py
@@ -45,7 +45,7 @@ class OdtRLocations(OdtReader):
         Overrides the superclass method.
         """
         if self._lcId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the location section and save data.
diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 6fb8089..921ecf2 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -57,8 +57,7 @@ class OdtRManuscript(OdtRFormatted):
         if self._skip_data:
             self._skip_data = False
         elif self._scId is not None:
-            if not data.isspace():
-                self._lines.append(data)
+            self._lines.append(data)
         elif self._chId is not None:
             if self.novel.chapters[self._chId].title is None:
                 self.novel.chapters[self._chId].title = data.strip()
-- 
2.43.0


From 645c13b35bb5b3f2d10ed577bccb660ef068efad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 13/79] fix: match the opened and closed tags of nested and
 combined ODT text spans

---
 src/pywriter/odt_r/odt_parser.py | 42 ++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index bd4bead..d26b440 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -123,7 +123,7 @@ class OdtParser(sax.ContentHandler):
         if name == 'text:p':
             if self._commentParagraphCount is None:
                 while self._span:
-                    self._client.handle_endtag(self._span.pop())
+                    self._close_span()
                 if self._blockquote:
                     self._client.handle_endtag('blockquote')
                     self._blockquote = False
@@ -134,8 +134,8 @@ class OdtParser(sax.ContentHandler):
                     self._client.handle_endtag('p')
                 self._paragraph = False
         elif name == 'text:span':
-            if self._span:
-                self._client.handle_endtag(self._span.pop())
+            if self._span and self._commentParagraphCount is None:
+                self._close_span()
         elif name == 'text:section':
             self._client.handle_endtag('div')
         elif name == 'office:annotation':
@@ -149,6 +149,22 @@ class OdtParser(sax.ContentHandler):
         elif name == 'style:style':
             self._style = None
 
+    def _close_span(self):
+        """Close all tags opened by the innermost paragraph or text span."""
+        tags = self._span.pop()
+        while tags:
+            self._client.handle_endtag(tags.pop())
+
+    def _open_span(self, style):
+        """Open the tags of a paragraph or text span."""
+        self._span.append([])
+        if style in self._emTags:
+            self._span[-1].append('em')
+            self._client.handle_starttag('em', [()])
+        if style in self._strongTags:
+            self._span[-1].append('strong')
+            self._client.handle_starttag('strong', [()])
+
     def startElement(self, name, attrs):
         """Signals the start of an element in non-namespace mode.
         
@@ -181,21 +197,15 @@ class OdtParser(sax.ContentHandler):
             else:
                 self._client.handle_starttag('p', param)
                 self._paragraph = True
-            if style in self._emTags:
-                self._span.append('em')
-                self._client.handle_starttag('em', [()])
-            if style in self._strongTags:
-                self._span.append('strong')
-                self._client.handle_starttag('strong', [()])
+            if self._commentParagraphCount is None:
+                self._open_span(style)
         elif name == 'text:span':
-            if style in self._emTags:
-                self._span.append('em')
-                self._client.handle_starttag('em', [()])
-            if style in self._strongTags:
-                self._span.append('strong')
-                self._client.handle_starttag('strong', [()])
+            if self._commentParagraphCount is not None:
+                return
+
+            self._open_span(style)
             if style in self._languageTags:
-                self._span.append('lang')
+                self._span[-1].append('lang')
                 self._client.handle_starttag('lang', [('lang', self._languageTags[style])])
         elif name == 'text:section':
             sectionId = xmlAttributes['text:name']
-- 
2.43.0


From 4eb5b509c446dd327116f786c84325dbe7b9f738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 14/79] fix: read repeated spaces in ODT documents

---
 src/pywriter/odt_r/odt_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index d26b440..687c526 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -242,5 +242,10 @@ class OdtParser(sax.ContentHandler):
                     locale = lngCode
                 self._languageTags[self._style] = locale
         elif name == 'text:s':
-            self._client.handle_starttag('s', [()])
+            spaces = int(xmlAttributes.get('text:c', 1))
+            if self._commentParagraphCount is None:
+                for __ in range(spaces):
+                    self._client.handle_starttag('s', [()])
+            elif self._commentParagraphCount > 0:
+                self._comment = f"{self._comment}{' ' * spaces}"
 
-- 
2.43.0


From c50cddc53cdba97df89b365a73b34d98ded297f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 15/79] fix: read all paragraphs of a comment

---
 src/pywriter/odt_r/odt_parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 687c526..a945e30 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -33,6 +33,7 @@ class OdtParser(sax.ContentHandler):
         self._heading = None
         self._paragraph = False
         self._commentParagraphCount = None
+        self._paragraphInComment = False
         self._blockquote = False
         self._list = False
         self._span = []
@@ -108,7 +109,7 @@ class OdtParser(sax.ContentHandler):
         Overrides the xml.sax.ContentHandler method             
         """
         if self._commentParagraphCount is not None:
-            if self._commentParagraphCount == 1:
+            if self._paragraphInComment:
                 self._comment = f'{self._comment}{content}'
         elif self._paragraph:
             self._client.handle_data(content)
@@ -133,6 +134,7 @@ class OdtParser(sax.ContentHandler):
                 else:
                     self._client.handle_endtag('p')
                 self._paragraph = False
+            self._paragraphInComment = False
         elif name == 'text:span':
             if self._span and self._commentParagraphCount is None:
                 self._close_span()
@@ -180,7 +182,10 @@ class OdtParser(sax.ContentHandler):
             if style in self._languageTags:
                 param = [('lang', self._languageTags[style])]
             if self._commentParagraphCount is not None:
+                if self._commentParagraphCount > 0:
+                    self._comment = f'{self._comment}\n'
                 self._commentParagraphCount += 1
+                self._paragraphInComment = True
             elif style in self._blockquoteTags:
                 self._client.handle_starttag('blockquote', param)
                 self._paragraph = True
@@ -246,6 +251,6 @@ class OdtParser(sax.ContentHandler):
             if self._commentParagraphCount is None:
                 for __ in range(spaces):
                     self._client.handle_starttag('s', [()])
-            elif self._commentParagraphCount > 0:
+            elif self._paragraphInComment:
                 self._comment = f"{self._comment}{' ' * spaces}"
 
-- 
2.43.0


From 7a32e1b66474a47a19becaa5ae6eee15e6d4afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 16/79] fix: import scenes beginning with a quotation or a list

---
 src/pywriter/odt_r/odt_r_import.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index bd2f7a0..3c80697 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -131,7 +131,7 @@ class OdtRImport(OdtRFormatted):
         
         Overrides the superclass method.
         """
-        if tag == 'p':
+        if tag in ('p', 'li', 'blockquote'):
             if self._scId is None and self._chId is not None:
                 self._lines = []
                 self._scCount += 1
@@ -141,6 +141,7 @@ class OdtRImport(OdtRFormatted):
                 self.novel.scenes[self._scId].status = 1
                 self.novel.scenes[self._scId].scType = 0
                 self.novel.scenes[self._scId].title = f'{_("Scene")} {self._scCount}'
+        if tag == 'p':
             try:
                 if attrs[0][0] == 'lang':
                     self._language = attrs[0][1]
-- 
2.43.0


From 486c59937daf2dabbcdb780b9f8f2b46807eba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 17/79] fix: find the project if the path contains the document
 suffix more than once

---
 src/pywriter/converter/import_target_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/converter/import_target_factory.py b/src/pywriter/converter/import_target_factory.py
index 55e7c35..7c6a389 100644
--- a/src/pywriter/converter/import_target_factory.py
+++ b/src/pywriter/converter/import_target_factory.py
@@ -40,7 +40,7 @@ class ImportTargetFactory(FileFactory):
             e = fileName.split(sourceSuffix)
             if len(e) > 1:
                 e.pop()
-            ywPathBasis = ''.join(e)
+            ywPathBasis = sourceSuffix.join(e)
         else:
             ywPathBasis = fileName
 
-- 
2.43.0


From af93f198dff0492bab0bd795e681e1b7d24d7516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 18/79] fix: raise the declared exception if a project file
 cannot be parsed

---
 src/pywriter/yw/yw7_file.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 9f1f070..17335e9 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -148,14 +148,19 @@ class Yw7File(File):
                     xmlText = f.read()
         except:
             try:
-                self.tree = ET.parse(self.filePath)
+                root = ET.parse(self.filePath).getroot()
             except Exception as ex:
                 raise Error(f'{_("Can not process file")} - {str(ex)}')
 
-        xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
-        root = ET.fromstring(xmlText)
-        xmlText = None
-        # saving memory
+        else:
+            xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
+            try:
+                root = ET.fromstring(xmlText)
+            except Exception as ex:
+                raise Error(f'{_("Can not process file")} - {str(ex)}')
+
+            xmlText = None
+            # saving memory
         self.tree = ET.ElementTree(root)
         self._read_project(root)
         self._read_locations(root)
-- 
2.43.0


From afc98ab47dd4cf3c13ee189fcd9e3deb59e66160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 19/79] fix: do not drop project notes having custom fields

---
 src/pywriter/yw/yw7_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 17335e9..fb6719a 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1363,9 +1363,10 @@ class Yw7File(File):
 
                 #--- Read project note custom fields.
                 for pnFields in xmlProjectnote.findall('Fields'):
-                    field = pnFields.find(fieldName)
-                    if field is not None:
-                        self.novel.projectNotes[pnId].kwVar[fieldName] = field.text
+                    for fieldName in self.PNT_KWVAR:
+                        field = pnFields.find(fieldName)
+                        if field is not None:
+                            self.novel.projectNotes[pnId].kwVar[fieldName] = field.text
         except:
             pass
 
-- 
2.43.0


From 446a6ee68830a008763ed3365bdd73cdf6960253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 20/79] fix: read scenes with an empty start day, hour, or
 minute

---
 src/pywriter/yw/yw7_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index fb6719a..56b2f01 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1505,18 +1505,18 @@ class Yw7File(File):
                     # Check if Day represents an integer.
                     try:
                         int(day)
-                    except ValueError:
+                    except (TypeError, ValueError):
                         day = ''
                     self.novel.scenes[scId].day = day
 
                 hasUnspecificTime = False
                 if xmlScene.find('Hour') is not None:
-                    hour = xmlScene.find('Hour').text.zfill(2)
+                    hour = (xmlScene.find('Hour').text or '').zfill(2)
                     hasUnspecificTime = True
                 else:
                     hour = '00'
                 if xmlScene.find('Minute') is not None:
-                    minute = xmlScene.find('Minute').text.zfill(2)
+                    minute = (xmlScene.find('Minute').text or '').zfill(2)
                     hasUnspecificTime = True
                 else:
                     minute = '00'
-- 
2.43.0


From 3c9e5daab45390ef759091910a76d2bbca66cf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 21/79] fix: accept percent signs in the configuration settings

---
 src/pywriter/config/configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/config/configuration.py b/src/pywriter/config/configuration.py
index 9d62a3b..9f2b668 100644
--- a/src/pywriter/config/configuration.py
+++ b/src/pywriter/config/configuration.py
@@ -45,7 +45,7 @@ class Configuration:
             
         Settings and options that can not be read in, remain unchanged.
         """
-        config = ConfigParser()
+        config = ConfigParser(interpolation=None)
         config.read(iniFile, encoding='utf-8')
         if config.has_section(self._sLabel):
             section = config[self._sLabel]
@@ -76,7 +76,7 @@ class Configuration:
         Positional arguments:
             iniFile: str -- path configuration file path.
         """
-        config = ConfigParser()
+        config = ConfigParser(interpolation=None)
         if self.settings:
             config.add_section(self._sLabel)
             for settingId in self.settings:
-- 
2.43.0


From d59a9bceecbf8c305e2393d39476a13109448212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 22/79] fix: keep options unchanged that can not be read as
 boolean values

---
 src/pywriter/config/configuration.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/config/configuration.py b/src/pywriter/config/configuration.py
index 9f2b668..db74370 100644
--- a/src/pywriter/config/configuration.py
+++ b/src/pywriter/config/configuration.py
@@ -56,7 +56,11 @@ class Configuration:
             section = config[self._oLabel]
             for option in self.options:
                 fallback = self.options[option]
-                self.options[option] = section.getboolean(option, fallback)
+                try:
+                    self.options[option] = section.getboolean(option, fallback)
+                except ValueError:
+                    # not a boolean value: keep the option unchanged
+                    self.options[option] = fallback
 
     def set(self, settings=None, options=None):
         """Set the entire configuration without writing the INI file.
-- 
2.43.0


From 23e290bc1b26995cdfd372aef3109b62edaa6b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 23/79] fix: let the custom variables reset include the scene
 arcs and modes

---
 src/pywriter/yw/yw7_purge.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pywriter/yw/yw7_purge.py b/src/pywriter/yw/yw7_purge.py
index 68119f5..2737d56 100644
--- a/src/pywriter/yw/yw7_purge.py
+++ b/src/pywriter/yw/yw7_purge.py
@@ -35,6 +35,11 @@ def reset_custom_variables(prjFile):
             if prjFile.novel.scenes[scId].kwVar.get(field, None):
                 prjFile.novel.scenes[scId].kwVar[field] = ''
                 hasChanged = True
+        if prjFile.novel.scenes[scId].scnArcs or prjFile.novel.scenes[scId].scnMode:
+            hasChanged = True
+        prjFile.novel.scenes[scId].scnArcs = None
+        prjFile.novel.scenes[scId].scnMode = None
+        # otherwise, the keyword variables would be restored from these when writing the file
     for crId in prjFile.novel.characters:
         for field in prjFile.CRT_KWVAR:
             if prjFile.novel.characters[crId].kwVar.get(field, None):
-- 
2.43.0


From 5ee75b9cec3a0a5944ea6d7e7715dd657a6c4457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 24/79] fix: export well-formed documents if markup overlaps,
 is unbalanced, or reaches across line breaks

---
 src/pywriter/odt_w/odt_w_formatted.py | 99 ++++++++++++++++++---------
 src/pywriter/odt_w/odt_w_proof.py     | 35 +---------
 2 files changed, 70 insertions(+), 64 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index ec387c9..aa3102c 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -6,6 +6,7 @@ Published under the MIT License (https://opensource.org/licenses/mit-license.php
 """
 import re
 from string import Template
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.odt_w.odt_writer import OdtWriter
 
@@ -55,13 +56,8 @@ class OdtWFormatted(OdtWriter):
         """
         if text:
             # Apply XML predefined entities.
-            odtReplacements = [
-                ('&', '&amp;'),
-                ('>', '&gt;'),
-                ('<', '&lt;'),
-                ("'", '&apos;'),
-                ('"', '&quot;'),
-                ]
+            text = escape(text, {"'": '&apos;', '"': '&quot;'})
+            odtReplacements = []
             if not quick:
                 tags = ['i', 'b']
                 odtReplacements.extend(self._get_replacements())
@@ -71,31 +67,7 @@ class OdtWFormatted(OdtWriter):
                     odtReplacements.append((f'[/lang={language}]', '</text:span>'))
 
                 #--- Process markup reaching across linebreaks.
-                newlines = []
-                lines = text.split('\n')
-                isOpen = {}
-                opening = {}
-                closing = {}
-                for tag in tags:
-                    isOpen[tag] = False
-                    opening[tag] = f'[{tag}]'
-                    closing[tag] = f'[/{tag}]'
-                for line in lines:
-                    for tag in tags:
-                        if isOpen[tag]:
-                            if line.startswith('&gt; '):
-                                line = f"&gt; {opening[tag]}{line.lstrip('&gt; ')}"
-                            else:
-                                line = f'{opening[tag]}{line}'
-                            isOpen[tag] = False
-                        while line.count(opening[tag]) > line.count(closing[tag]):
-                            line = f'{line}{closing[tag]}'
-                            isOpen[tag] = True
-                        while line.count(closing[tag]) > line.count(opening[tag]):
-                            line = f'{opening[tag]}{line}'
-                        line = line.replace(f'{opening[tag]}{closing[tag]}', '')
-                    newlines.append(line)
-                text = '\n'.join(newlines).rstrip()
+                text = self._nest_markup(text, tags).rstrip()
 
             #--- Apply odt formating.
             for yw, od in odtReplacements:
@@ -138,6 +110,69 @@ class OdtWFormatted(OdtWriter):
         projectTemplateMapping['ContentHeader'] = template.safe_substitute(styleMapping)
         return projectTemplateMapping
 
+    def _nest_markup(self, text, tags):
+        """Return text with properly nested markup.
+        
+        Positional arguments:
+            text: str -- XML escaped text to process.
+            tags -- list of the formatting tags to consider.
+        
+        In contrast to Office Writer, yWriter accepts markup reaching across linebreaks,
+        overlapping markup, and unbalanced markup.
+        Return a string, where each line and each comment has its own, properly nested markup.
+        """
+        tagPattern = re.compile(fr'(\n|\[/?(?:{"|".join(re.escape(tag) for tag in tags)})\])')
+
+        def nest(text):
+            lines = ['']
+            opened = []
+            # tags that are open at the current position of the output
+            required = []
+            # tags that apply to the text to be written next
+
+            def switch(newTags):
+                count = 0
+                while opened[:count + 1] == newTags[:count + 1] and count < len(newTags):
+                    count += 1
+                for tag in reversed(opened[count:]):
+                    lines[-1] = f'{lines[-1]}[/{tag}]'
+                for tag in newTags[count:]:
+                    lines[-1] = f'{lines[-1]}[{tag}]'
+                opened[:] = newTags
+
+            for comment, part in enumerate(re.split(r'/\*(.*?)\*/', text, flags=re.DOTALL)):
+                if comment % 2:
+                    part = re.sub('^&gt;', '&#62;', part, flags=re.MULTILINE)
+                    # Comments are not to be formatted as quotations.
+                    switch(required)
+                    lines[-1] = f'{lines[-1]}/*{nest(part)}*/'
+                    continue
+
+                # Protect comment marks without a counterpart.
+                part = part.replace('/*', '/&#42;').replace('*/', '&#42;/')
+                for isTag, token in enumerate(tagPattern.split(part)):
+                    if token == '\n':
+                        switch([])
+                        lines.append('')
+                    elif isTag % 2 and token.startswith('[/'):
+                        for i in reversed(range(len(required))):
+                            if required[i] == token[2:-1]:
+                                del required[i]
+                                break
+                    elif isTag % 2:
+                        required.append(token[1:-1])
+                    elif token:
+                        if token.startswith('&gt; ') and not lines[-1]:
+                            # Quoted paragraph
+                            lines[-1] = '&gt; '
+                            token = token[len('&gt; '):]
+                        switch(required)
+                        lines[-1] = f'{lines[-1]}{token}'
+            switch([])
+            return '\n'.join(lines)
+
+        return nest(text)
+
     def _get_replacements(self):
         return [
                 ('\n\n', ('</text:p>\r<text:p text:style-name="First_20_line_20_indent" />\r'
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 8a2535f..9fea57b 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -51,13 +51,8 @@ class OdtWProof(OdtWFormatted):
         """
         if text:
             # Apply XML predefined entities.
-            odtReplacements = [
-                ('&', '&amp;'),
-                ('>', '&gt;'),
-                ('<', '&lt;'),
-                ("'", '&apos;'),
-                ('"', '&quot;'),
-                ]
+            text = escape(text, {"'": '&apos;', '"': '&quot;'})
+            odtReplacements = []
             tags = ['i', 'b']
             odtReplacements.extend([
                 ('\n\n', '</text:p>\r<text:p text:style-name="First_20_line_20_indent" />\r<text:p text:style-name="Text_20_body">'),
@@ -79,31 +74,7 @@ class OdtWProof(OdtWFormatted):
             ])
 
             #--- Process markup reaching across linebreaks.
-            newlines = []
-            lines = text.split('\n')
-            isOpen = {}
-            opening = {}
-            closing = {}
-            for tag in tags:
-                isOpen[tag] = False
-                opening[tag] = f'[{tag}]'
-                closing[tag] = f'[/{tag}]'
-            for line in lines:
-                for tag in tags:
-                    if isOpen[tag]:
-                        if line.startswith('&gt; '):
-                            line = f"&gt; {opening[tag]}{line.lstrip('&gt; ')}"
-                        else:
-                            line = f'{opening[tag]}{line}'
-                        isOpen[tag] = False
-                    while line.count(opening[tag]) > line.count(closing[tag]):
-                        line = f'{line}{closing[tag]}'
-                        isOpen[tag] = True
-                    while line.count(closing[tag]) > line.count(opening[tag]):
-                        line = f'{opening[tag]}{line}'
-                    line = line.replace(f'{opening[tag]}{closing[tag]}', '')
-                newlines.append(line)
-            text = '\n'.join(newlines).rstrip()
+            text = self._nest_markup(text, tags).rstrip()
 
             #--- Apply odt formating.
             for yw, od in odtReplacements:
-- 
2.43.0


From ed4904806b49db965da90f6bdbc4938abb4b2ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 25/79] fix: do not quote paragraphs with '> ' after a comment
 within the text

---
 src/pywriter/odt_w/odt_w_formatted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index aa3102c..7281cbd 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -206,7 +206,7 @@ class OdtWFormatted(OdtWriter):
                          )
             for quotMark in quotMarks:
                 text = text.replace(quotMark, '"Quotations">')
-            text = re.sub(r'"Text_20_body"\>(\<office\:annotation\>.+?\<\/office\:annotation\>)\&gt\; ',
+            text = re.sub(r'"Text_20_body"\>((?:\<office\:annotation\>(?:(?!\<\/office\:annotation\>).)*\<\/office\:annotation\>)+)\&gt\; ',
                           '"Quotations">\\1', text)
         return text
 
-- 
2.43.0


From e90104f80ee553e1b1d47f0004264ef396b5280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 26/79] fix: read nested languages

---
 src/pywriter/odt_r/odt_parser.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index a945e30..7ecff90 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -37,6 +37,7 @@ class OdtParser(sax.ContentHandler):
         self._blockquote = False
         self._list = False
         self._span = []
+        self._languages = []
         self._style = None
         self._client = client
 
@@ -125,6 +126,7 @@ class OdtParser(sax.ContentHandler):
             if self._commentParagraphCount is None:
                 while self._span:
                     self._close_span()
+                self._languages = []
                 if self._blockquote:
                     self._client.handle_endtag('blockquote')
                     self._blockquote = False
@@ -155,7 +157,13 @@ class OdtParser(sax.ContentHandler):
         """Close all tags opened by the innermost paragraph or text span."""
         tags = self._span.pop()
         while tags:
-            self._client.handle_endtag(tags.pop())
+            tag = tags.pop()
+            self._client.handle_endtag(tag)
+            if tag == 'lang':
+                self._languages.pop()
+                if self._languages:
+                    # Return to the enclosing language
+                    self._client.handle_starttag('lang', [('lang', self._languages[-1])])
 
     def _open_span(self, style):
         """Open the tags of a paragraph or text span."""
@@ -188,6 +196,7 @@ class OdtParser(sax.ContentHandler):
                 self._paragraphInComment = True
             elif style in self._blockquoteTags:
                 self._client.handle_starttag('blockquote', param)
+                self._languages = [self._languageTags[style]] if style in self._languageTags else []
                 self._paragraph = True
                 self._blockquote = True
             elif style.startswith('Heading'):
@@ -201,6 +210,7 @@ class OdtParser(sax.ContentHandler):
                 self._paragraph = True
             else:
                 self._client.handle_starttag('p', param)
+                self._languages = [self._languageTags[style]] if style in self._languageTags else []
                 self._paragraph = True
             if self._commentParagraphCount is None:
                 self._open_span(style)
@@ -210,6 +220,10 @@ class OdtParser(sax.ContentHandler):
 
             self._open_span(style)
             if style in self._languageTags:
+                if self._languages:
+                    # Interrupt the enclosing language
+                    self._client.handle_endtag('lang')
+                self._languages.append(self._languageTags[style])
                 self._span[-1].append('lang')
                 self._client.handle_starttag('lang', [('lang', self._languageTags[style])])
         elif name == 'text:section':
-- 
2.43.0


From 665f7ec87acf95a4dd919224e3bd1623e50a1461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 27/79] fix: exclude multi-line and empty comments from the
 word count and the letter count

---
 src/pywriter/model/scene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/model/scene.py b/src/pywriter/model/scene.py
index 132252a..fb207ea 100644
--- a/src/pywriter/model/scene.py
+++ b/src/pywriter/model/scene.py
@@ -14,11 +14,11 @@ from pywriter.pywriter_globals import *
 ADDITIONAL_WORD_LIMITS = re.compile(r'--|—|–')
 # this is to be replaced by spaces, thus making dashes and dash replacements word limits
 
-NO_WORD_LIMITS = re.compile(r'\[.+?\]|\/\*.+?\*\/|-|^\>', re.MULTILINE)
+NO_WORD_LIMITS = re.compile(r'\[.+?\]|\/\*(?s:.*?)\*\/|-|^\>', re.MULTILINE)
 # this is to be replaced by empty strings, thus excluding markup and comments from
 # word counting, and making hyphens join words
 
-NON_LETTERS = re.compile(r'\[.+?\]|\/\*.+?\*\/|\n|\r')
+NON_LETTERS = re.compile(r'\[.+?\]|\/\*(?s:.*?)\*\/|\n|\r')
 # this is to be replaced by empty strings, thus excluding markup, comments, and linefeeds
 # from letter counting
 
-- 
2.43.0


From 8762b82533022d740906f729ba7c361a7208b311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 28/79] fix: restore the backup if writing the project fails in
 the final step

---
 src/pywriter/yw/yw7_file.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 56b2f01..c218eec 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -206,8 +206,14 @@ class Yw7File(File):
                     self.novel.scenes[scId].kwVar['Field_SceneMode'] = str(self.novel.scenes[scId].scnMode)
             self.novel.scenes[scId].kwVar['Field_SceneStyle'] = None
         self._build_element_tree()
+        backupNeeded = os.path.isfile(self.filePath)
         self._write_element_tree(self)
-        self._postprocess_xml_file(self.filePath)
+        try:
+            self._postprocess_xml_file(self.filePath)
+        except:
+            if backupNeeded:
+                os.replace(f'{self.filePath}.bak', self.filePath)
+            raise Error(f'{_("Cannot write file")}: "{norm_path(self.filePath)}".')
 
     def _build_element_tree(self):
         """Modify the yWriter project attributes of an existing xml element tree."""
-- 
2.43.0


From e4b1f844d755fbeeaf68c5f6b91c5341a6e8194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 29/79] fix: do not write "None" as title, author, or summary
 into the ODF metadata

---
 src/pywriter/odf/odf_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 7dd9158..0aab81b 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -148,9 +148,9 @@ class OdfFile(FileExport):
 
         #--- Generate meta.xml with actual document metadata.
         metaMapping = dict(
-            Author=escape(str(self.novel.authorName)),
-            Title=escape(str(self.novel.title)),
-            Summary=f'<![CDATA[{self.novel.desc}]]>'.replace(']]>', ']]]]><![CDATA[>', str(self.novel.desc).count(']]>')),
+            Author=escape(self.novel.authorName or ''),
+            Title=escape(self.novel.title or ''),
+            Summary=escape(self.novel.desc or ''),
             Datetime=datetime.today().replace(microsecond=0).isoformat(),
         )
         template = Template(self._META_XML)
-- 
2.43.0


From 1a38ac119e4d7b9d3cf738d90a0b87cbc1180271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 30/79] fix: do not process titles as formatted text when
 exporting the proof document

---
 src/pywriter/odt_w/odt_w_proof.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 9fea57b..54d7461 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -44,11 +44,14 @@ class OdtWProof(OdtWFormatted):
             text -- string to convert.
         
         Optional arguments:
-            quick: bool -- This argument is not used here.
+            quick: bool -- if True, apply a conversion mode for one-liners without formatting.
         
         Apply direct formatting instead of the emphasizing character styles.
         Overrides the superclass method.
         """
+        if quick:
+            return super()._convert_from_yw(text, True)
+
         if text:
             # Apply XML predefined entities.
             text = escape(text, {"'": '&apos;', '"': '&quot;'})
@@ -60,7 +63,7 @@ class OdtWProof(OdtWFormatted):
                 ('\r', '\n'),
                 ('[/i]', '</text:span>'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{escape(str(self.novel.authorName))}</dc:creator><text:p>'),
+                ('/*', f'<office:annotation><dc:creator>{self._convert_from_yw(self.novel.authorName, True)}</dc:creator><text:p>'),
                 ('*/', '</text:p></office:annotation>'),
             ])
             i = 0
-- 
2.43.0


From 9a02f59c2add5903299eed8a8957153d0c4a5713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 31/79] fix: keep bracketed text that is not a formatting tag
 when exporting documents

---
 src/pywriter/odt_w/odt_w_formatted.py | 3 ++-
 src/pywriter/odt_w/odt_w_proof.py     | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 7281cbd..a363ba1 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -75,7 +75,8 @@ class OdtWFormatted(OdtWriter):
 
             # Remove highlighting, alignment,
             # strikethrough, and underline tags.
-            text = re.sub(r'\[\/*[h|c|r|s|u]\d*\]', '', text)
+            if not quick:
+                text = re.sub(r'\[\/*[hcrsu]\d*\]', '', text)
         else:
             text = ''
         return text
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 54d7461..5835b95 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -85,7 +85,7 @@ class OdtWProof(OdtWFormatted):
 
             # Remove highlighting, alignment,
             # strikethrough, and underline tags.
-            text = re.sub(r'\[\/*[h|c|r|s|u]\d*\]', '', text)
+            text = re.sub(r'\[\/*[hcrsu]\d*\]', '', text)
         else:
             text = ''
         return text
-- 
2.43.0


From 6fd1e406ae47d00d89c4b34287839bb8339f9ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 32/79] fix: do not take titles and ordinary text for comments
 or line breaks when exporting the novel document

---
 src/pywriter/odt_w/odt_w_export.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_export.py b/src/pywriter/odt_w/odt_w_export.py
index 486add8..07893dc 100644
--- a/src/pywriter/odt_w/odt_w_export.py
+++ b/src/pywriter/odt_w/odt_w_export.py
@@ -48,6 +48,9 @@ class OdtWExport(OdtWFormatted):
         if not quick:
             text = self._remove_inline_code(text)
         text = super()._convert_from_yw(text, quick)
+        if quick:
+            # Protect comment marks in titles.
+            text = text.replace('/*', '/&#42;')
         return(text)
 
     def _get_chapterMapping(self, chId, chapterNumber):
@@ -105,15 +108,13 @@ class OdtWExport(OdtWFormatted):
         #--- Convert comments, footnotes, and endnotes.
         # This is done once for the entire document because of the document-wide note numbering.
         if text.find('/*') > 0:
-            text = text.replace('\r', '@r@').replace('\n', '@n@')
             self._noteCounter = 0
             self._noteNumber = 0
             authorName = self._convert_from_yw(self.novel.authorName, True).replace('\\', r'\\')
             simpleComment = (f'<office:annotation><dc:creator>{authorName}'
                              '</dc:creator><text:p>\\1</text:p></office:annotation>'
                              )
-            text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text)
-            text = re.sub(r'\/\*(.*?)\*\/', simpleComment, text)
-            text = text.replace(r'@r@', '\r').replace('@n@', '\n')
+            text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text, flags=re.DOTALL)
+            text = re.sub(r'\/\*(.*?)\*\/', simpleComment, text, flags=re.DOTALL)
         return text
 
-- 
2.43.0


From fe6a53a29519a376614e1456951156edffdfd158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 33/79] fix: keep languages without a country when exporting
 documents

---
 src/pywriter/odt_w/odt_w_formatted.py | 2 +-
 src/pywriter/odt_w/odt_w_proof.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index a363ba1..fea07cd 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -93,7 +93,7 @@ class OdtWFormatted(OdtWriter):
             lines = ['<office:automatic-styles>']
             for i, language in enumerate(self.novel.languages, 1):
                 try:
-                    lngCode, ctrCode = language.split('-')
+                    lngCode, ctrCode = language.split('-') if '-' in language else (language, 'none')
                 except:
                     lngCode = 'zxx'
                     ctrCode = 'none'
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 5835b95..bba4812 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -102,7 +102,7 @@ class OdtWProof(OdtWFormatted):
         lines = ['<office:automatic-styles>']
         for i, language in enumerate(self.novel.languages, 1):
             try:
-                lngCode, ctrCode = language.split('-')
+                lngCode, ctrCode = language.split('-') if '-' in language else (language, 'none')
             except:
                 lngCode = 'zxx'
                 ctrCode = 'none'
-- 
2.43.0


From b0ca735033f63e7ef2774b992030f2828c9b576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 34/79] fix: do not write "None" as a scene rating into the
 scene list

---
 src/pywriter/ods_w/ods_w_scenelist.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pywriter/ods_w/ods_w_scenelist.py b/src/pywriter/ods_w/ods_w_scenelist.py
index 8e1ab53..d0f405f 100644
--- a/src/pywriter/ods_w/ods_w_scenelist.py
+++ b/src/pywriter/ods_w/ods_w_scenelist.py
@@ -219,8 +219,7 @@ class OdsWSceneList(OdsWriter):
         """
         sceneMapping = super()._get_sceneMapping(scId, sceneNumber, wordsTotal, lettersTotal)
         for key in ('Field1', 'Field2', 'Field3', 'Field4', 'Characters', 'Locations', 'Items'):
-            if sceneMapping[key] is not None:
-                sceneMapping[key] = self._convert_from_yw(sceneMapping[key], True)
+            sceneMapping[key] = self._convert_from_yw(sceneMapping[key], True)
         if self.novel.scenes[scId].field1 == '1':
             sceneMapping['Field1'] = ''
         if self.novel.scenes[scId].field2 == '1':
-- 
2.43.0


From abcbb5bd161394dd669d2703b683336a3b1163fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 35/79] fix: do not write "None" as status of a scene into the
 scene list

---
 src/pywriter/file/file_export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index 055cd23..b4f523a 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -511,7 +511,7 @@ class FileExport(File):
             WordsTotal=wordsTotal,
             LetterCount=str(self.novel.scenes[scId].letterCount),
             LettersTotal=lettersTotal,
-            Status=Scene.STATUS[self.novel.scenes[scId].status or 0],
+            Status=Scene.STATUS[self.novel.scenes[scId].status or 0] or '',
             SceneContent=self._convert_from_yw(self.novel.scenes[scId].sceneContent),
             FieldTitle1=self._convert_from_yw(self.novel.fieldTitle1, True),
             FieldTitle2=self._convert_from_yw(self.novel.fieldTitle2, True),
-- 
2.43.0


From 2fd53a75f7cae7c3d64f611f47a8582f942ee6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:00 +0000
Subject: [PATCH 36/79] fix: do not process the author's name as formatted text
 in comments

---
 src/pywriter/odt_w/odt_w_formatted.py | 7 ++++++-
 src/pywriter/odt_w/odt_w_proof.py     | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index fea07cd..226d9d3 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -174,6 +174,11 @@ class OdtWFormatted(OdtWriter):
 
         return nest(text)
 
+    def _get_comment_author(self):
+        """Return the author name for annotations, protected against being processed as markup."""
+        author = self._convert_from_yw(self.novel.authorName, True)
+        return author.replace('*/', '&#42;/').replace('[', '&#91;')
+
     def _get_replacements(self):
         return [
                 ('\n\n', ('</text:p>\r<text:p text:style-name="First_20_line_20_indent" />\r'
@@ -184,7 +189,7 @@ class OdtWFormatted(OdtWriter):
                 ('[/i]', '</text:span>'),
                 ('[b]', '<text:span text:style-name="Strong_20_Emphasis">'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{self._convert_from_yw(self.novel.authorName, True)}</dc:creator><text:p>'),
+                ('/*', f'<office:annotation><dc:creator>{self._get_comment_author()}</dc:creator><text:p>'),
                 ('*/', '</text:p></office:annotation>'),
                 ]
 
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index bba4812..1c882a4 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -63,7 +63,7 @@ class OdtWProof(OdtWFormatted):
                 ('\r', '\n'),
                 ('[/i]', '</text:span>'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{self._convert_from_yw(self.novel.authorName, True)}</dc:creator><text:p>'),
+                ('/*', f'<office:annotation><dc:creator>{self._get_comment_author()}</dc:creator><text:p>'),
                 ('*/', '</text:p></office:annotation>'),
             ])
             i = 0
-- 
2.43.0


From 4e22034a676107685d8a91a6216b7ecc9f5c16d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:53 +0000
Subject: [PATCH 37/79] fix: keep documents well-formed if an asterisk or a
 slash touches the end of a comment

---
 src/pywriter/odt_w/odt_w_formatted.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 226d9d3..e5c8be9 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -145,8 +145,10 @@ class OdtWFormatted(OdtWriter):
                 if comment % 2:
                     part = re.sub('^&gt;', '&#62;', part, flags=re.MULTILINE)
                     # Comments are not to be formatted as quotations.
+                    part = re.sub('/$', '&#47;', nest(part))
+                    # The comment's end is not to be mistaken for a comment mark.
                     switch(required)
-                    lines[-1] = f'{lines[-1]}/*{nest(part)}*/'
+                    lines[-1] = f'{lines[-1]}/*{part}*/'
                     continue
 
                 # Protect comment marks without a counterpart.
@@ -168,6 +170,8 @@ class OdtWFormatted(OdtWriter):
                             lines[-1] = '&gt; '
                             token = token[len('&gt; '):]
                         switch(required)
+                        if lines[-1].endswith('*/'):
+                            token = re.sub('^[*]', '&#42;', token)
                         lines[-1] = f'{lines[-1]}{token}'
             switch([])
             return '\n'.join(lines)
-- 
2.43.0


From 8617d8056a2a7dd96689bfcc701fa0e4287d8ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:29 +0000
Subject: [PATCH 38/79] fix: look for scene and chapter dividers in imported
 scenes only

---
 src/pywriter/model/splitter.py         | 8 +++++++-
 src/pywriter/odt_r/odt_r_formatted.py  | 3 ++-
 src/pywriter/odt_r/odt_r_import.py     | 1 +
 src/pywriter/odt_r/odt_r_manuscript.py | 1 +
 src/pywriter/odt_r/odt_r_proof.py      | 1 +
 5 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index b08b04e..2f4e980 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -32,7 +32,7 @@ class Splitter:
     _CLIP_TITLE = 20
     # Maximum length of newly generated scene titles.
 
-    def split_scenes(self, file):
+    def split_scenes(self, file, scIds=None):
         """Split scenes by inserted chapter and scene dividers.
         
         Update a Novel instance by generating new chapters and scenes 
@@ -41,6 +41,9 @@ class Splitter:
         Positional argument: 
             file -- File instance to update.
         
+        Optional argument:
+            scIds -- IDs of the scenes to be searched for dividers (all scenes, if omitted).
+        
         Return True if the sructure has changed, 
         otherwise return False.        
         """
@@ -118,6 +121,9 @@ class Splitter:
             srtScenes = []
             for scId in file.novel.chapters[chId].srtScenes:
                 srtScenes.append(scId)
+                if scIds is not None and scId not in scIds:
+                    continue
+
                 if not file.novel.scenes[scId].sceneContent:
                     continue
 
diff --git a/src/pywriter/odt_r/odt_r_formatted.py b/src/pywriter/odt_r/odt_r_formatted.py
index cdb28a4..92ed425 100644
--- a/src/pywriter/odt_r/odt_r_formatted.py
+++ b/src/pywriter/odt_r/odt_r_formatted.py
@@ -28,11 +28,12 @@ class OdtRFormatted(OdtReader):
         Extends the superclass method.
         """
         self.novel.languages = []
+        self._scenesRead = set()
         super().read()
 
         # Split scenes, if necessary.
         sceneSplitter = Splitter()
-        self.scenesSplit = sceneSplitter.split_scenes(self)
+        self.scenesSplit = sceneSplitter.split_scenes(self, self._scenesRead)
 
     def _cleanup_scene(self, text):
         """Clean up yWriter markup.
diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index 3c80697..d5f46dd 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -101,6 +101,7 @@ class OdtRImport(OdtRFormatted):
                 sceneText = ''.join(self._lines).rstrip()
                 sceneText = self._cleanup_scene(sceneText)
                 self.novel.scenes[self._scId].sceneContent = sceneText
+                self._scenesRead.add(self._scId)
                 if self.novel.scenes[self._scId].wordCount < self._LOW_WORDCOUNT:
                     self.novel.scenes[self._scId].status = 1
                     # Outline
diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 921ecf2..54c7ea6 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -87,6 +87,7 @@ class OdtRManuscript(OdtRFormatted):
             elif tag == 'div':
                 text = ''.join(self._lines)
                 self.novel.scenes[self._scId].sceneContent = self._cleanup_scene(text).rstrip()
+                self._scenesRead.add(self._scId)
                 self._lines = []
                 self._scId = None
             elif tag == 'h1':
diff --git a/src/pywriter/odt_r/odt_r_proof.py b/src/pywriter/odt_r/odt_r_proof.py
index 97b05b6..205a80d 100644
--- a/src/pywriter/odt_r/odt_r_proof.py
+++ b/src/pywriter/odt_r/odt_r_proof.py
@@ -41,6 +41,7 @@ class OdtRProof(OdtRFormatted):
                 if self._scId in self.novel.scenes:
                     text = ''.join(self._lines)
                     self.novel.scenes[self._scId].sceneContent = self._cleanup_scene(text).strip()
+                    self._scenesRead.add(self._scId)
                     self._lines = []
                 self._scId = None
             elif self._scId is not None:
-- 
2.43.0


From 40ba64833780b3e764001a4cae4c15f50110fc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:58 +0000
Subject: [PATCH 39/79] fix: do not carry text from outside into a section of
 an imported document

---
 src/pywriter/odt_r/odt_r_characters.py | 2 ++
 src/pywriter/odt_r/odt_r_items.py      | 1 +
 src/pywriter/odt_r/odt_r_locations.py  | 1 +
 src/pywriter/odt_r/odt_reader.py       | 2 ++
 4 files changed, 6 insertions(+)

diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 6e5972f..1f08709 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -88,6 +88,8 @@ class OdtRCharacters(OdtReader):
         """
         if tag == 'div':
             if attrs[0][0] == 'id':
+                if attrs[0][1].startswith('CrID'):
+                    self._lines = []
                 if attrs[0][1].startswith('CrID_desc'):
                     self._crId = re.search(r'[0-9]+', attrs[0][1]).group()
                     if not self._crId in self.novel.characters:
diff --git a/src/pywriter/odt_r/odt_r_items.py b/src/pywriter/odt_r/odt_r_items.py
index b3633ea..d18396b 100644
--- a/src/pywriter/odt_r/odt_r_items.py
+++ b/src/pywriter/odt_r/odt_r_items.py
@@ -75,6 +75,7 @@ class OdtRItems(OdtReader):
         if tag == 'div':
             if attrs[0][0] == 'id':
                 if attrs[0][1].startswith('ItID'):
+                    self._lines = []
                     self._itId = re.search(r'[0-9]+', attrs[0][1]).group()
                     if not self._itId in self.novel.items:
                         self.novel.srtItems.append(self._itId)
diff --git a/src/pywriter/odt_r/odt_r_locations.py b/src/pywriter/odt_r/odt_r_locations.py
index 6ac6cc2..a8fb95f 100644
--- a/src/pywriter/odt_r/odt_r_locations.py
+++ b/src/pywriter/odt_r/odt_r_locations.py
@@ -75,6 +75,7 @@ class OdtRLocations(OdtReader):
         if tag == 'div':
             if attrs[0][0] == 'id':
                 if attrs[0][1].startswith('LcID'):
+                    self._lines = []
                     self._lcId = re.search(r'[0-9]+', attrs[0][1]).group()
                     if not self._lcId in self.novel.locations:
                         self.novel.srtLocations.append(self._lcId)
diff --git a/src/pywriter/odt_r/odt_reader.py b/src/pywriter/odt_r/odt_reader.py
index 154c34e..4d64524 100644
--- a/src/pywriter/odt_r/odt_reader.py
+++ b/src/pywriter/odt_r/odt_reader.py
@@ -99,12 +99,14 @@ class OdtReader(File, ABC):
         if tag == 'div':
             if attrs[0][0] == 'id':
                 if attrs[0][1].startswith('ScID'):
+                    self._lines = []
                     self._scId = re.search(r'[0-9]+', attrs[0][1]).group()
                     if not self._scId in self.novel.scenes:
                         self.novel.scenes[self._scId] = Scene()
                         self.novel.chapters[self._chId].srtScenes.append(self._scId)
                     self.novel.scenes[self._scId].scType = self._TYPE
                 elif attrs[0][1].startswith('ChID'):
+                    self._lines = []
                     self._chId = re.search(r'[0-9]+', attrs[0][1]).group()
                     if not self._chId in self.novel.chapters:
                         self.novel.chapters[self._chId] = Chapter()
-- 
2.43.0


From e9057b3b1ee956d8e0007326356c926023166d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:58 +0000
Subject: [PATCH 40/79] fix: assign each section of the character sheet to its
 own character

---
 src/pywriter/odt_r/odt_r_characters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 1f08709..69296c8 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -90,11 +90,12 @@ class OdtRCharacters(OdtReader):
             if attrs[0][0] == 'id':
                 if attrs[0][1].startswith('CrID'):
                     self._lines = []
-                if attrs[0][1].startswith('CrID_desc'):
+                if attrs[0][1].startswith('CrID_'):
                     self._crId = re.search(r'[0-9]+', attrs[0][1]).group()
                     if not self._crId in self.novel.characters:
                         self.novel.srtCharacters.append(self._crId)
                         self.novel.characters[self._crId] = Character()
+                if attrs[0][1].startswith('CrID_desc'):
                     self._section = 'desc'
                 elif attrs[0][1].startswith('CrID_bio'):
                     self._section = 'bio'
-- 
2.43.0


From 6214655634bbbb0ae852e362b1e02ae807f38276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 41/79] fix: take the title of an untitled chapter from its own
 heading only

---
 src/pywriter/odt_r/odt_r_manuscript.py | 7 +++++--
 src/pywriter/odt_r/odt_r_scenedesc.py  | 7 +++++--
 src/pywriter/odt_r/odt_reader.py       | 3 +++
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 54c7ea6..9a74fa6 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -59,8 +59,7 @@ class OdtRManuscript(OdtRFormatted):
         elif self._scId is not None:
             self._lines.append(data)
         elif self._chId is not None:
-            if self.novel.chapters[self._chId].title is None:
-                self.novel.chapters[self._chId].title = data.strip()
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the scene section and save data.
@@ -97,6 +96,10 @@ class OdtRManuscript(OdtRFormatted):
         elif self._chId is not None:
             if tag == 'div':
                 self._chId = None
+            elif tag in ('h1', 'h2'):
+                title = ''.join(self._lines).strip()
+                if title and not self.novel.chapters[self._chId].title:
+                    self.novel.chapters[self._chId].title = title
 
     def handle_starttag(self, tag, attrs):
         """Identify scenes and chapters.
diff --git a/src/pywriter/odt_r/odt_r_scenedesc.py b/src/pywriter/odt_r/odt_r_scenedesc.py
index 888c565..ef17be6 100644
--- a/src/pywriter/odt_r/odt_r_scenedesc.py
+++ b/src/pywriter/odt_r/odt_r_scenedesc.py
@@ -31,8 +31,7 @@ class OdtRSceneDesc(OdtReader):
         if self._scId is not None:
             self._lines.append(data)
         elif self._chId is not None:
-            if not self.novel.chapters[self._chId].title:
-                self.novel.chapters[self._chId].title = data.strip()
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the scene section and save data.
@@ -63,4 +62,8 @@ class OdtRSceneDesc(OdtReader):
         elif self._chId is not None:
             if tag == 'div':
                 self._chId = None
+            elif tag in ('h1', 'h2'):
+                title = ''.join(self._lines).strip()
+                if title and not self.novel.chapters[self._chId].title:
+                    self.novel.chapters[self._chId].title = title
 
diff --git a/src/pywriter/odt_r/odt_reader.py b/src/pywriter/odt_r/odt_reader.py
index 4d64524..e98b3b7 100644
--- a/src/pywriter/odt_r/odt_reader.py
+++ b/src/pywriter/odt_r/odt_reader.py
@@ -113,6 +113,9 @@ class OdtReader(File, ABC):
                         self.novel.chapters[self._chId].srtScenes = []
                         self.novel.srtChapters.append(self._chId)
                     self.novel.chapters[self._chId].chType = self._TYPE
+        elif tag in ('h1', 'h2'):
+            if self._scId is None:
+                self._lines = []
         elif tag == 's':
             self._lines.append(' ')
 
-- 
2.43.0


From 5d9a1d66dfd2291f237dbf7936820a5269942f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 42/79] fix: do not let an author's own section end a scene
 when importing a document

---
 src/pywriter/odt_r/odt_parser.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 7ecff90..a8cfcd6 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -22,6 +22,9 @@ class OdtParser(sax.ContentHandler):
         startElement -- Signals the start of an element in non-namespace mode.
       
     """
+    _SECTIONS = ('ChID', 'ScID', 'CrID', 'LcID', 'ItID')
+    # Beginnings of the names of the sections to be processed.
+    # Other sections are the author's own ones; they do not structure the novel.
 
     def __init__(self, client):
         super().__init__()
@@ -36,6 +39,7 @@ class OdtParser(sax.ContentHandler):
         self._paragraphInComment = False
         self._blockquote = False
         self._list = False
+        self._sections = []
         self._span = []
         self._languages = []
         self._style = None
@@ -141,7 +145,9 @@ class OdtParser(sax.ContentHandler):
             if self._span and self._commentParagraphCount is None:
                 self._close_span()
         elif name == 'text:section':
-            self._client.handle_endtag('div')
+            sectionId = self._sections.pop()
+            if sectionId.startswith(self._SECTIONS):
+                self._client.handle_endtag('div')
         elif name == 'office:annotation':
             self._client.handle_comment(self._comment)
             self._commentParagraphCount = None
@@ -228,7 +234,9 @@ class OdtParser(sax.ContentHandler):
                 self._client.handle_starttag('lang', [('lang', self._languageTags[style])])
         elif name == 'text:section':
             sectionId = xmlAttributes['text:name']
-            self._client.handle_starttag('div', [('id', sectionId)])
+            self._sections.append(sectionId)
+            if sectionId.startswith(self._SECTIONS):
+                self._client.handle_starttag('div', [('id', sectionId)])
         elif name == 'office:annotation':
             self._commentParagraphCount = 0
             self._comment = ''
-- 
2.43.0


From 594202b3f34ac50c0b0c1290d225044d723f25b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 43/79] fix: keep paragraphs apart when importing quotations

---
 src/pywriter/odt_r/odt_r_chapterdesc.py | 2 +-
 src/pywriter/odt_r/odt_r_characters.py  | 2 +-
 src/pywriter/odt_r/odt_r_items.py       | 2 +-
 src/pywriter/odt_r/odt_r_locations.py   | 2 +-
 src/pywriter/odt_r/odt_r_outline.py     | 2 +-
 src/pywriter/odt_r/odt_r_scenedesc.py   | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_chapterdesc.py b/src/pywriter/odt_r/odt_r_chapterdesc.py
index d565276..c6d7d37 100644
--- a/src/pywriter/odt_r/odt_r_chapterdesc.py
+++ b/src/pywriter/odt_r/odt_r_chapterdesc.py
@@ -33,7 +33,7 @@ class OdtRChapterDesc(OdtReader):
                 self.novel.chapters[self._chId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._chId = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
             elif tag == 'h1' or tag == 'h2':
                 if not self.novel.chapters[self._chId].title:
diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 69296c8..c4f5551 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -74,7 +74,7 @@ class OdtRCharacters(OdtReader):
                     self.novel.characters[self._crId].notes = ''.join(self._lines).rstrip()
                     self._lines = []
                     self._section = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_items.py b/src/pywriter/odt_r/odt_r_items.py
index d18396b..6151eb1 100644
--- a/src/pywriter/odt_r/odt_r_items.py
+++ b/src/pywriter/odt_r/odt_r_items.py
@@ -60,7 +60,7 @@ class OdtRItems(OdtReader):
                 self.novel.items[self._itId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._itId = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_locations.py b/src/pywriter/odt_r/odt_r_locations.py
index a8fb95f..4365c59 100644
--- a/src/pywriter/odt_r/odt_r_locations.py
+++ b/src/pywriter/odt_r/odt_r_locations.py
@@ -60,7 +60,7 @@ class OdtRLocations(OdtReader):
                 self.novel.locations[self._lcId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._lcId = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_outline.py b/src/pywriter/odt_r/odt_r_outline.py
index 1ef2e6f..19cbf69 100644
--- a/src/pywriter/odt_r/odt_r_outline.py
+++ b/src/pywriter/odt_r/odt_r_outline.py
@@ -64,7 +64,7 @@ class OdtROutline(OdtReader):
         Overrides the superclass method.
         """
         text = ''.join(self._lines)
-        if tag == 'p':
+        if tag in ('p', 'blockquote'):
             text = f'{text.strip()}\n'
             self._lines = [text]
             if self._scId is not None:
diff --git a/src/pywriter/odt_r/odt_r_scenedesc.py b/src/pywriter/odt_r/odt_r_scenedesc.py
index ef17be6..157f4d5 100644
--- a/src/pywriter/odt_r/odt_r_scenedesc.py
+++ b/src/pywriter/odt_r/odt_r_scenedesc.py
@@ -57,7 +57,7 @@ class OdtRSceneDesc(OdtReader):
                 self.novel.scenes[self._scId].desc = text.rstrip()
                 self._lines = []
                 self._scId = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
         elif self._chId is not None:
             if tag == 'div':
-- 
2.43.0


From 1aea41f8840343e2349780259597cbcb7d648b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 44/79] fix: keep words apart at tabs and line breaks when
 importing documents

---
 src/pywriter/odt_r/odt_parser.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index a8cfcd6..05d6e3b 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -275,4 +275,16 @@ class OdtParser(sax.ContentHandler):
                     self._client.handle_starttag('s', [()])
             elif self._paragraphInComment:
                 self._comment = f"{self._comment}{' ' * spaces}"
+        elif name in ('text:tab', 'text:line-break'):
+            char = '\t' if name == 'text:tab' else '\n'
+            if self._commentParagraphCount is not None:
+                if self._paragraphInComment:
+                    self._comment = f'{self._comment}{char}'
+            elif self._heading is not None:
+                self._client.handle_data(' ')
+            elif self._paragraph:
+                self._client.handle_data(char)
+                if self._blockquote and char == '\n':
+                    # Each line of a quotation is a quotation
+                    self._client.handle_starttag('blockquote', [()])
 
-- 
2.43.0


From 0f868e687fd8cd0d97b7633683280e4592dbcdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 45/79] fix: import footnotes and endnotes as marked comments
 instead of losing the rest of the paragraph

---
 src/pywriter/odt_r/odt_parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 05d6e3b..d9dc8d3 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -148,7 +148,7 @@ class OdtParser(sax.ContentHandler):
             sectionId = self._sections.pop()
             if sectionId.startswith(self._SECTIONS):
                 self._client.handle_endtag('div')
-        elif name == 'office:annotation':
+        elif name in ('office:annotation', 'text:note'):
             self._client.handle_comment(self._comment)
             self._commentParagraphCount = None
         elif name == 'text:h':
@@ -240,6 +240,13 @@ class OdtParser(sax.ContentHandler):
         elif name == 'office:annotation':
             self._commentParagraphCount = 0
             self._comment = ''
+        elif name == 'text:note':
+            # Footnotes and endnotes are marked comments
+            self._commentParagraphCount = 0
+            if xmlAttributes.get('text:note-class', '') == 'endnote':
+                self._comment = '@en '
+            else:
+                self._comment = '@fn '
         elif name == 'text:h':
             try:
                 self._heading = f'h{xmlAttributes["text:outline-level"]}'
-- 
2.43.0


From e1eb93b889653098d008a36857578c5fa4a9b599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:12 +0000
Subject: [PATCH 46/79] fix: do not drop a comment without a title from the
 beginning of a scene description

---
 src/pywriter/odt_r/odt_r_scenedesc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_scenedesc.py b/src/pywriter/odt_r/odt_r_scenedesc.py
index 157f4d5..7fff7ca 100644
--- a/src/pywriter/odt_r/odt_r_scenedesc.py
+++ b/src/pywriter/odt_r/odt_r_scenedesc.py
@@ -51,7 +51,7 @@ class OdtRSceneDesc(OdtReader):
                         if self._SC_TITLE_BRACKET in scTitle:
                             self.novel.scenes[self._scId].title = scTitle.split(
                                 self._SC_TITLE_BRACKET)[1].strip()
-                        text = scContent
+                            text = scContent
                     except:
                         pass
                 self.novel.scenes[self._scId].desc = text.rstrip()
-- 
2.43.0


From d17989cb506da8d94676c5c382cfb57b16cb8b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:42 +0000
Subject: [PATCH 47/79] fix: recognize scene dividers by whole paragraphs when
 importing work in progress

---
 src/pywriter/odt_r/odt_r_import.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index d5f46dd..9a32ed2 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -50,6 +50,7 @@ class OdtRImport(OdtRFormatted):
         self._chCount = 0
         self._scCount = 0
         self._heading = False
+        self._paragraph = ''
 
     def handle_comment(self, data):
         """Process inline comments within scene content.
@@ -79,10 +80,8 @@ class OdtRImport(OdtRFormatted):
         
         Overrides the superclass method.
         """
-        if self._scId is not None and self._SCENE_DIVIDER in data:
-            self._scId = None
-        else:
-            self._lines.append(data)
+        self._lines.append(data)
+        self._paragraph = f'{self._paragraph}{data}'
 
     def handle_endtag(self, tag):
         """Recognize the paragraph's end.
@@ -92,7 +91,15 @@ class OdtRImport(OdtRFormatted):
 
         Overrides the superclass method.
         """
-        if tag in ('p', 'blockquote'):
+        isDivider = False
+        if tag not in ('em', 'strong', 'lang'):
+            # A scene divider is a paragraph of its own
+            isDivider = self._scId is not None and self._paragraph.strip() == self._SCENE_DIVIDER
+            self._paragraph = ''
+        if isDivider:
+            self._scId = None
+            self._language = ''
+        elif tag in ('p', 'blockquote'):
             if self._language:
                 self._lines.append(f'[/lang={self._language}]')
                 self._language = ''
-- 
2.43.0


From 981b9117ac846b86c046c3df0a02909989f447c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:42 +0000
Subject: [PATCH 48/79] fix: close a paragraph's language before its end when
 importing a proof reading document

---
 src/pywriter/odt_r/odt_r_proof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_proof.py b/src/pywriter/odt_r/odt_r_proof.py
index 205a80d..a1fb7d2 100644
--- a/src/pywriter/odt_r/odt_r_proof.py
+++ b/src/pywriter/odt_r/odt_r_proof.py
@@ -58,10 +58,10 @@ class OdtRProof(OdtRFormatted):
         Overrides the superclass method.
         """
         if tag in ['p', 'h2', 'h1', 'blockquote']:
-            self._lines.append('\n')
             if self._language:
                 self._lines.append(f'[/lang={self._language}]')
                 self._language = ''
+            self._lines.append('\n')
         elif tag == 'em':
             self._lines.append('[/i]')
         elif tag == 'strong':
-- 
2.43.0


From a839eab545eeb042f7a07ccb7d6561d532f92bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:54 +0000
Subject: [PATCH 49/79] fix: do not list an element twice when its ID occurs
 more than once in the table

---
 src/pywriter/ods_r/ods_r_charlist.py | 3 ++-
 src/pywriter/ods_r/ods_r_itemlist.py | 3 ++-
 src/pywriter/ods_r/ods_r_loclist.py  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/ods_r/ods_r_charlist.py b/src/pywriter/ods_r/ods_r_charlist.py
index 22a35d2..6d32db8 100644
--- a/src/pywriter/ods_r/ods_r_charlist.py
+++ b/src/pywriter/ods_r/ods_r_charlist.py
@@ -32,7 +32,8 @@ class OdsRCharList(OdsReader):
         for cells in self._rows:
             if 'CrID:' in cells[0]:
                 crId = re.search(r'CrID\:([0-9]+)', cells[0]).group(1)
-                self.novel.srtCharacters.append(crId)
+                if not crId in self.novel.srtCharacters:
+                    self.novel.srtCharacters.append(crId)
                 if not crId in self.novel.characters:
                     self.novel.characters[crId] = Character()
                 if self.novel.characters[crId].title or cells[1]:
diff --git a/src/pywriter/ods_r/ods_r_itemlist.py b/src/pywriter/ods_r/ods_r_itemlist.py
index 19fa282..4a01997 100644
--- a/src/pywriter/ods_r/ods_r_itemlist.py
+++ b/src/pywriter/ods_r/ods_r_itemlist.py
@@ -32,7 +32,8 @@ class OdsRItemList(OdsReader):
         for cells in self._rows:
             if 'ItID:' in cells[0]:
                 itId = re.search(r'ItID\:([0-9]+)', cells[0]).group(1)
-                self.novel.srtItems.append(itId)
+                if not itId in self.novel.srtItems:
+                    self.novel.srtItems.append(itId)
                 if not itId in self.novel.items:
                     self.novel.items[itId] = WorldElement()
                 if self.novel.items[itId].title or cells[1]:
diff --git a/src/pywriter/ods_r/ods_r_loclist.py b/src/pywriter/ods_r/ods_r_loclist.py
index 1854250..8ca8ace 100644
--- a/src/pywriter/ods_r/ods_r_loclist.py
+++ b/src/pywriter/ods_r/ods_r_loclist.py
@@ -32,7 +32,8 @@ class OdsRLocList(OdsReader):
         for cells in self._rows:
             if 'LcID:' in cells[0]:
                 lcId = re.search(r'LcID\:([0-9]+)', cells[0]).group(1)
-                self.novel.srtLocations.append(lcId)
+                if not lcId in self.novel.srtLocations:
+                    self.novel.srtLocations.append(lcId)
                 if not lcId in self.novel.locations:
                     self.novel.locations[lcId] = WorldElement()
                 if self.novel.locations[lcId].title or cells[1]:
-- 
2.43.0


From 6e7e71c1b6bf1bdf3681fdfa72a7a6a8f381dd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:54 +0000
Subject: [PATCH 50/79] fix: read no cells beyond the last column of a table

---
 src/pywriter/ods_r/ods_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pywriter/ods_r/ods_parser.py b/src/pywriter/ods_r/ods_parser.py
index 61786a7..dcda03d 100644
--- a/src/pywriter/ods_r/ods_parser.py
+++ b/src/pywriter/ods_r/ods_parser.py
@@ -87,6 +87,10 @@ class OdsParser:
 
                         cells.append(content)
                         i += 1
+                    if i >= cellsPerRow:
+                        # The row is complete.
+                        break
+
             if cells:
                 rows.append(cells)
                 # print(cells)
-- 
2.43.0


From a029c2152f83b0e5b9cb8fbdd592a2813c918f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:10 +0000
Subject: [PATCH 51/79] fix: do not lose the text within tagged sections when
 making a new project from a document

---
 src/pywriter/odt_r/odt_r_import.py  | 3 ---
 src/pywriter/odt_r/odt_r_outline.py | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index 9a32ed2..814f47d 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -182,9 +182,6 @@ class OdtRImport(OdtRFormatted):
             else:
                 self.novel.chapters[self._chId].chLevel = 0
             self._heading = True
-        elif tag == 'div':
-            self._scId = None
-            self._chId = None
         elif tag == 'meta':
             if attrs[0][1] == 'author':
                 self.novel.authorName = attrs[1][1]
diff --git a/src/pywriter/odt_r/odt_r_outline.py b/src/pywriter/odt_r/odt_r_outline.py
index 19cbf69..793e055 100644
--- a/src/pywriter/odt_r/odt_r_outline.py
+++ b/src/pywriter/odt_r/odt_r_outline.py
@@ -111,9 +111,6 @@ class OdtROutline(OdtReader):
             self.novel.scenes[self._scId].sceneContent = ''
             self.novel.scenes[self._scId].status = 1
             self.novel.scenes[self._scId].scType = 0
-        elif tag == 'div':
-            self._scId = None
-            self._chId = None
         elif tag == 'meta':
             if attrs[0][1] == 'author':
                 self.novel.authorName = attrs[1][1]
-- 
2.43.0


From 8ae7f2c016639ce51634b83ed6abb70186b3b6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:40 +0000
Subject: [PATCH 52/79] fix: take a comment for the title of an imported scene
 even if its paragraph is formatted

---
 src/pywriter/odt_r/odt_r_import.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index 814f47d..0cd740c 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -62,7 +62,7 @@ class OdtRImport(OdtRFormatted):
         Overrides the superclass method.
         """
         if self._scId is not None:
-            if not self._lines:
+            if self.novel.scenes[self._scId].sceneContent is None and not self._paragraph:
                 # Comment is at scene start
                 try:
                     self.novel.scenes[self._scId].title = data.strip()
@@ -211,6 +211,7 @@ class OdtRImport(OdtRFormatted):
                 pass
         elif tag == 's':
             self._lines.append(' ')
+            self._paragraph = f'{self._paragraph} '
 
     def read(self):
         """Parse the file and get the instance variables.
-- 
2.43.0


From d74bb180bd3f68339447bced5b3466c93c3e9e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:16 +0000
Subject: [PATCH 53/79] fix: keep the language of list items when importing a
 document

---
 src/pywriter/odt_r/odt_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index d9dc8d3..4b5a8ac 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -213,6 +213,9 @@ class OdtParser(sax.ContentHandler):
                 self._client.handle_starttag(self._heading, [()])
             elif self._list:
                 self._client.handle_starttag('li', [()])
+                if style in self._languageTags:
+                    self._client.handle_starttag('lang', param)
+                self._languages = [self._languageTags[style]] if style in self._languageTags else []
                 self._paragraph = True
             else:
                 self._client.handle_starttag('p', param)
-- 
2.43.0


From cbcec8c0cc6244f55b82330964ea9ce1da6ab021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 54/79] fix: keep headings within descriptions apart from the
 following text

---
 src/pywriter/odt_r/odt_r_chapterdesc.py | 2 +-
 src/pywriter/odt_r/odt_r_characters.py  | 2 +-
 src/pywriter/odt_r/odt_r_items.py       | 2 +-
 src/pywriter/odt_r/odt_r_locations.py   | 2 +-
 src/pywriter/odt_r/odt_r_scenedesc.py   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_chapterdesc.py b/src/pywriter/odt_r/odt_r_chapterdesc.py
index c6d7d37..12e2857 100644
--- a/src/pywriter/odt_r/odt_r_chapterdesc.py
+++ b/src/pywriter/odt_r/odt_r_chapterdesc.py
@@ -33,7 +33,7 @@ class OdtRChapterDesc(OdtReader):
                 self.novel.chapters[self._chId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._chId = None
-            elif tag in ('p', 'blockquote'):
+            elif tag in ('p', 'blockquote', 'h3', 'h4', 'h5', 'h6'):
                 self._lines.append('\n')
             elif tag == 'h1' or tag == 'h2':
                 if not self.novel.chapters[self._chId].title:
diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index c4f5551..cae9b53 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -74,7 +74,7 @@ class OdtRCharacters(OdtReader):
                     self.novel.characters[self._crId].notes = ''.join(self._lines).rstrip()
                     self._lines = []
                     self._section = None
-            elif tag in ('p', 'blockquote'):
+            elif tag in ('p', 'blockquote', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6'):
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_items.py b/src/pywriter/odt_r/odt_r_items.py
index 6151eb1..fb66035 100644
--- a/src/pywriter/odt_r/odt_r_items.py
+++ b/src/pywriter/odt_r/odt_r_items.py
@@ -60,7 +60,7 @@ class OdtRItems(OdtReader):
                 self.novel.items[self._itId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._itId = None
-            elif tag in ('p', 'blockquote'):
+            elif tag in ('p', 'blockquote', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6'):
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_locations.py b/src/pywriter/odt_r/odt_r_locations.py
index 4365c59..f3b2275 100644
--- a/src/pywriter/odt_r/odt_r_locations.py
+++ b/src/pywriter/odt_r/odt_r_locations.py
@@ -60,7 +60,7 @@ class OdtRLocations(OdtReader):
                 self.novel.locations[self._lcId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._lcId = None
-            elif tag in ('p', 'blockquote'):
+            elif tag in ('p', 'blockquote', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6'):
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_scenedesc.py b/src/pywriter/odt_r/odt_r_scenedesc.py
index 7fff7ca..c5e3707 100644
--- a/src/pywriter/odt_r/odt_r_scenedesc.py
+++ b/src/pywriter/odt_r/odt_r_scenedesc.py
@@ -57,7 +57,7 @@ class OdtRSceneDesc(OdtReader):
                 self.novel.scenes[self._scId].desc = text.rstrip()
                 self._lines = []
                 self._scId = None
-            elif tag in ('p', 'blockquote'):
+            elif tag in ('p', 'blockquote', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6'):
                 self._lines.append('\n')
         elif self._chId is not None:
             if tag == 'div':
-- 
2.43.0


From e72cf6728d84e17ab3707c60809af0de249e89c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:17 +0000
Subject: [PATCH 55/79] fix: process the text between two tags of a document as
 a whole, even if the XML parser delivers it in pieces

---
 src/pywriter/odt_r/odt_parser.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 4b5a8ac..84ecd7d 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -43,6 +43,8 @@ class OdtParser(sax.ContentHandler):
         self._span = []
         self._languages = []
         self._style = None
+        self._characters = []
+        # pieces of text, as received since the last tag
         self._client = client
 
     def feed_file(self, filePath):
@@ -111,8 +113,18 @@ class OdtParser(sax.ContentHandler):
     def characters(self, content):
         """Receive notification of character data.
         
+        The parser may deliver the text between two tags in several pieces.
         Overrides the xml.sax.ContentHandler method             
         """
+        self._characters.append(content)
+
+    def _flush_characters(self):
+        """Process the text since the last tag as a whole."""
+        if not self._characters:
+            return
+
+        content = ''.join(self._characters)
+        self._characters = []
         if self._commentParagraphCount is not None:
             if self._paragraphInComment:
                 self._comment = f'{self._comment}{content}'
@@ -126,6 +138,7 @@ class OdtParser(sax.ContentHandler):
         
         Overrides the xml.sax.ContentHandler method     
         """
+        self._flush_characters()
         if name == 'text:p':
             if self._commentParagraphCount is None:
                 while self._span:
@@ -186,6 +199,7 @@ class OdtParser(sax.ContentHandler):
         
         Overrides the xml.sax.ContentHandler method             
         """
+        self._flush_characters()
         xmlAttributes = {}
         for attribute in attrs.items():
             attrKey, attrValue = attribute
-- 
2.43.0


From 04dd660a001a2740e908e27e33cb769ec16c9fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:17 +0000
Subject: [PATCH 56/79] fix: skip scene headings of older notes and todo
 documents completely

---
 src/pywriter/odt_r/odt_r_manuscript.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 9a74fa6..3b7bf74 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -55,7 +55,8 @@ class OdtRManuscript(OdtRFormatted):
         Overrides the superclass method.
         """
         if self._skip_data:
-            self._skip_data = False
+            return
+
         elif self._scId is not None:
             self._lines.append(data)
         elif self._chId is not None:
@@ -93,6 +94,8 @@ class OdtRManuscript(OdtRFormatted):
                 self._lines.append('\n')
             elif tag == 'h2':
                 self._lines.append('\n')
+            elif tag == 'h3':
+                self._skip_data = False
         elif self._chId is not None:
             if tag == 'div':
                 self._chId = None
-- 
2.43.0


From 88f207da233c8efee4daa2c0d20b7af70d93bbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:10 +0000
Subject: [PATCH 57/79] fix: report unsupported files instead of crashing

---
 src/pywriter/converter/yw_cnv_ff.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pywriter/converter/yw_cnv_ff.py b/src/pywriter/converter/yw_cnv_ff.py
index 13b0418..52c5db9 100644
--- a/src/pywriter/converter/yw_cnv_ff.py
+++ b/src/pywriter/converter/yw_cnv_ff.py
@@ -75,6 +75,11 @@ class YwCnvFf(YwCnvUi):
                 source, __ = self.importSourceFactory.make_file_objects(sourcePath, **kwargs)
             except Error:
                 # A new yWriter project might be required.
+                if self.newProjectFactory is None:
+                    # The converter does not create projects.
+                    self.ui.set_info_how(f'!{_("File type is not supported")}: "{norm_path(sourcePath)}".')
+                    return
+
                 try:
                     source, target = self.newProjectFactory.make_file_objects(sourcePath, **kwargs)
                 except Error as ex:
-- 
2.43.0


From 6d2358fb3719c9475770057816dac1d7eb034517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:40 +0000
Subject: [PATCH 58/79] fix: report if the temporary directory cannot be
 created

---
 src/pywriter/odf/odf_file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 0aab81b..2e185ed 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -42,7 +42,11 @@ class OdfFile(FileExport):
         Extends the superclass constructor,        
         """
         super().__init__(filePath, **kwargs)
-        self._tempDir = tempfile.mkdtemp(suffix='.tmp', prefix='odf_')
+        try:
+            self._tempDir = tempfile.mkdtemp(suffix='.tmp', prefix='odf_')
+        except OSError:
+            raise Error(f'{_("Cannot create directory")}: "{norm_path(tempfile.gettempdir())}".')
+
         self._originalPath = self._filePath
 
     def __del__(self):
-- 
2.43.0


From 36c0d20598eaaa3da3e5abf4a486320751624b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:43 +0000
Subject: [PATCH 59/79] fix: keep the document path after a failed export

---
 src/pywriter/odf/odf_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 2e185ed..baa1adc 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -71,8 +71,10 @@ class OdfFile(FileExport):
         #--- Add "content.xml" to the temporary directory.
         self._originalPath = self._filePath
         self._filePath = f'{self._tempDir}/content.xml'
-        self.write_content_xml()
-        self._filePath = self._originalPath
+        try:
+            self.write_content_xml()
+        finally:
+            self._filePath = self._originalPath
 
         #--- Pack the contents of the temporary directory into the ODF file.
         workdir = os.getcwd()
-- 
2.43.0


From 1be1e54fd14cc4933204e6aa920e68f029fb1660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:29 +0000
Subject: [PATCH 60/79] fix: import with a system locale without language

---
 src/pywriter/pywriter_globals.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/pywriter_globals.py b/src/pywriter/pywriter_globals.py
index 5e4eea7..4027941 100644
--- a/src/pywriter/pywriter_globals.py
+++ b/src/pywriter/pywriter_globals.py
@@ -29,8 +29,12 @@ LOCALE_PATH = f'{os.path.dirname(sys.argv[0])}/locale/'
 try:
     CURRENT_LANGUAGE = locale.getlocale()[0][:2]
 except:
-    # Fallback for old Windows versions.
-    CURRENT_LANGUAGE = locale.getdefaultlocale()[0][:2]
+    try:
+        # Fallback for old Windows versions.
+        CURRENT_LANGUAGE = locale.getdefaultlocale()[0][:2]
+    except:
+        # The system locale doesn't specify a language.
+        CURRENT_LANGUAGE = ''
 try:
     t = gettext.translation('pywriter', LOCALE_PATH, languages=[CURRENT_LANGUAGE])
     _ = t.gettext
-- 
2.43.0


From 369907f32d3f9ac3fc38dab2386151afb46b211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:29 +0000
Subject: [PATCH 61/79] fix: check the locale without a valid system locale

---
 src/pywriter/model/novel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/model/novel.py b/src/pywriter/model/novel.py
index 5753468..da7215b 100644
--- a/src/pywriter/model/novel.py
+++ b/src/pywriter/model/novel.py
@@ -177,11 +177,14 @@ class Novel(BasicElement):
             try:
                 sysLng, sysCtr = locale.getlocale()[0].split('_')
             except:
-                # Fallback for old Windows versions.
-                sysLng, sysCtr = locale.getdefaultlocale()[0].split('_')
+                try:
+                    # Fallback for old Windows versions.
+                    sysLng, sysCtr = locale.getdefaultlocale()[0].split('_')
+                except:
+                    # The system locale doesn't specify language and country.
+                    sysLng, sysCtr = 'zxx', 'none'
             self.languageCode = sysLng
             self.countryCode = sysCtr
-            return
 
         try:
             # Plausibility check: code must have two characters.
-- 
2.43.0


From 10e7ebacd854175ec179e7541b23497b9994e7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:41 +0000
Subject: [PATCH 62/79] fix: declare the languages added after the project was
 read

---
 src/pywriter/model/novel.py           | 5 +++--
 src/pywriter/odt_w/odt_w_formatted.py | 3 +--
 src/pywriter/yw/yw7_file.py           | 3 +--
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pywriter/model/novel.py b/src/pywriter/model/novel.py
index da7215b..3de23c3 100644
--- a/src/pywriter/model/novel.py
+++ b/src/pywriter/model/novel.py
@@ -138,7 +138,7 @@ class Novel(BasicElement):
     def get_languages(self):
         """Determine the languages used in the document.
         
-        Populate the self.languages list with all language codes found in the scene contents.        
+        Add all language codes found in the scene contents to the self.languages list.        
         Example:
         - language markup: 'Standard text [lang=en-AU]Australian text[/lang=en-AU].'
         - language code: 'en-AU'
@@ -158,7 +158,8 @@ class Novel(BasicElement):
                     yield m.group(1)
                     m = LANGUAGE_TAG.search(text)
 
-        self.languages = []
+        if self.languages is None:
+            self.languages = []
         for scId in self.scenes:
             text = self.scenes[scId].sceneContent
             if text:
diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index e5c8be9..bdaf275 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -39,8 +39,7 @@ class OdtWFormatted(OdtWriter):
         
         Extends the superclass method.
         """
-        if self.novel.languages is None:
-            self.novel.get_languages()
+        self.novel.get_languages()
         return super().write()
 
     def _convert_from_yw(self, text, quick=False):
diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index c218eec..85c0eae 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -192,8 +192,7 @@ class Yw7File(File):
         if self.is_locked():
             raise Error(f'{_("yWriter seems to be open. Please close first")}.')
 
-        if self.novel.languages is None:
-            self.novel.get_languages()
+        self.novel.get_languages()
 
         #--- Get custom instance variables.
         for scId in self.novel.scenes:
-- 
2.43.0


From 032c0b49f0b80f4084362c38c1d49a7ef9a28aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:41 +0000
Subject: [PATCH 63/79] fix: close the project if it cannot be read for any
 reason

---
 src/pywriter/ui/main_tk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/ui/main_tk.py b/src/pywriter/ui/main_tk.py
index 47243a9..f83cfcd 100644
--- a/src/pywriter/ui/main_tk.py
+++ b/src/pywriter/ui/main_tk.py
@@ -169,7 +169,7 @@ class MainTk(Ui):
         self.prjFile.novel = self.novel
         try:
             self.prjFile.read()
-        except Error as ex:
+        except Exception as ex:
             self.close_project()
             self.set_info_how(f'!{str(ex)}')
             return False
-- 
2.43.0


From 26170c37fcda8adbcc34b13a8d8d2446f315eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:55 +0000
Subject: [PATCH 64/79] fix: reset the custom fields of project notes

---
 src/pywriter/yw/yw7_purge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_purge.py b/src/pywriter/yw/yw7_purge.py
index 2737d56..ef78943 100644
--- a/src/pywriter/yw/yw7_purge.py
+++ b/src/pywriter/yw/yw7_purge.py
@@ -57,8 +57,8 @@ def reset_custom_variables(prjFile):
                 hasChanged = True
     for pnId in prjFile.novel.projectNotes:
         for field in prjFile.PNT_KWVAR:
-            if prjFile.novel.projectnotes[pnId].kwVar.get(field, None):
-                prjFile.novel.projectnotes[pnId].kwVar[field] = ''
+            if prjFile.novel.projectNotes[pnId].kwVar.get(field, None):
+                prjFile.novel.projectNotes[pnId].kwVar[field] = ''
                 hasChanged = True
     return hasChanged
 
-- 
2.43.0


From 60439662e468439f78fee46bd5a3d624257585ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:44 +0000
Subject: [PATCH 65/79] fix: save the custom fields of project notes

---
 src/pywriter/yw/yw7_file.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 85c0eae..021799f 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -705,6 +705,23 @@ class Yw7File(File):
             if projectNote.desc is not None:
                 ET.SubElement(xmlProjectnote, 'Desc').text = projectNote.desc
 
+            #--- Write project note custom fields.
+            xmlProjectnoteFields = xmlProjectnote.find('Fields')
+            for field in self.PNT_KWVAR:
+                if projectNote.kwVar.get(field, None):
+                    if xmlProjectnoteFields is None:
+                        xmlProjectnoteFields = ET.SubElement(xmlProjectnote, 'Fields')
+                    fieldEntry = self._convert_from_yw(projectNote.kwVar[field])
+                    try:
+                        xmlProjectnoteFields.find(field).text = fieldEntry
+                    except(AttributeError):
+                        ET.SubElement(xmlProjectnoteFields, field).text = fieldEntry
+                elif xmlProjectnoteFields is not None:
+                    try:
+                        xmlProjectnoteFields.remove(xmlProjectnoteFields.find(field))
+                    except:
+                        pass
+
         def add_projectvariable(title, desc, tags):
             # Note:
             # prjVars, xmlProjectvars are caller's variables
-- 
2.43.0


From 49a0cd6da928431f28e5fbb5f94a5f401dd44245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:46 +0000
Subject: [PATCH 66/79] fix: read the project notes following one without ID

---
 src/pywriter/yw/yw7_file.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 021799f..648d459 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1379,16 +1379,16 @@ class Yw7File(File):
                     if xmlProjectnote.find('Desc') is not None:
                         self.novel.projectNotes[pnId].desc = xmlProjectnote.find('Desc').text
 
-                #--- Initialize project note custom fields.
-                for fieldName in self.PNT_KWVAR:
-                    self.novel.projectNotes[pnId].kwVar[fieldName] = None
-
-                #--- Read project note custom fields.
-                for pnFields in xmlProjectnote.findall('Fields'):
+                    #--- Initialize project note custom fields.
                     for fieldName in self.PNT_KWVAR:
-                        field = pnFields.find(fieldName)
-                        if field is not None:
-                            self.novel.projectNotes[pnId].kwVar[fieldName] = field.text
+                        self.novel.projectNotes[pnId].kwVar[fieldName] = None
+
+                    #--- Read project note custom fields.
+                    for pnFields in xmlProjectnote.findall('Fields'):
+                        for fieldName in self.PNT_KWVAR:
+                            field = pnFields.find(fieldName)
+                            if field is not None:
+                                self.novel.projectNotes[pnId].kwVar[fieldName] = field.text
         except:
             pass
 
-- 
2.43.0


From fff5086d725b67edeadb322529ca705cb63592de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:23 +0000
Subject: [PATCH 67/79] fix: do not add the messages of previously compiled
 translations to a message catalog

---
 src/msgfmt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/msgfmt.py b/src/msgfmt.py
index 3f731e9..50227c0 100644
--- a/src/msgfmt.py
+++ b/src/msgfmt.py
@@ -101,6 +101,9 @@ def make(filename, outfile):
     STR = 2
     CTXT = 3
 
+    # Do not mix up the catalog with previously processed ones
+    MESSAGES.clear()
+
     # Compute .mo name from .po name and arguments
     if filename.endswith('.po'):
         infile = filename
-- 
2.43.0


From f118f23ebfe5157bfb019e898fe339b7a2276065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:23 +0000
Subject: [PATCH 68/79] fix: apply message contexts and fuzzy marks to their
 own entries only

---
 src/msgfmt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/msgfmt.py b/src/msgfmt.py
index 50227c0..5bb1960 100644
--- a/src/msgfmt.py
+++ b/src/msgfmt.py
@@ -146,12 +146,15 @@ def make(filename, outfile):
         if l.startswith('msgctxt'):
             if section == STR:
                 add(msgctxt, msgid, msgstr, fuzzy)
+                fuzzy = 0
             section = CTXT
             l = l[7:]
             msgctxt = b''
         elif l.startswith('msgid') and not l.startswith('msgid_plural'):
             if section == STR:
                 add(msgctxt, msgid, msgstr, fuzzy)
+                msgctxt = None
+                fuzzy = 0
                 if not msgid:
                     # See whether there is an encoding declaration
                     p = HeaderParser()
-- 
2.43.0


From 98399eea63f984d7734a3317cda01c1435fd779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:23 +0000
Subject: [PATCH 69/79] fix: do not escape quotes in messages twice

---
 src/pgettext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pgettext.py b/src/pgettext.py
index fb7201b..f06f8a8 100644
--- a/src/pgettext.py
+++ b/src/pgettext.py
@@ -58,10 +58,11 @@ class PotFile:
                 }
         hdTemplate = Template(potHeader)
         potText = hdTemplate.safe_substitute(msgMap)
+        # Escape double quotes, unless already escaped in the source code.
+        self.msgList = [re.sub(r'(\\.)|"', lambda m: m.group(1) or '\\"', message) for message in self.msgList]
         self.msgList = list(set(self.msgList))
         self.msgList.sort()
         for message in self.msgList:
-            message = message.replace('"', '\\"')
             entry = f'\nmsgid "{message}"\nmsgstr ""\n'
             potText += entry
         with open(self.filePath, 'w', encoding='utf-8') as f:
-- 
2.43.0


From 44240c302308662bd732ed3b09fece8179a537c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:10 +0000
Subject: [PATCH 70/79] fix: do not garble the first message of a catalog

---
 src/msgfmt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/msgfmt.py b/src/msgfmt.py
index 5bb1960..626c62e 100644
--- a/src/msgfmt.py
+++ b/src/msgfmt.py
@@ -128,8 +128,8 @@ def make(filename, outfile):
 
     # Parse the catalog
     lno = 0
-    for l in lines:
-        l = l.decode(encoding)
+    for line in lines:
+        l = line.decode(encoding)
         lno += 1
         # If we get a comment line after a msgstr, this is a new entry
         if l[0] == '#' and section == STR:
@@ -161,6 +161,7 @@ def make(filename, outfile):
                     charset = p.parsestr(msgstr.decode(encoding)).get_content_charset()
                     if charset:
                         encoding = charset
+                        l = line.decode(encoding)
             section = ID
             l = l[5:]
             msgid = msgstr = b''
-- 
2.43.0


From fc21fd18a1a5d20bc20732df8c49122a661a6c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:10 +0000
Subject: [PATCH 71/79] fix: read wrapped entries of translation files

---
 src/translations.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/translations.py b/src/translations.py
index e4da76c..821193d 100644
--- a/src/translations.py
+++ b/src/translations.py
@@ -166,7 +166,7 @@ class Translations:
         print(f'Reading "{self.poFile}" ...')
         try:
             with open(self.poFile, 'r', encoding='utf-8') as f:
-                lines = f.readlines()
+                lines = self._join_lines(f.readlines())
         except FileNotFoundError:
             print('Not found.')
             return
@@ -232,6 +232,17 @@ class Translations:
         print(f'{msgCount} entries written.')
         return True
 
+    def _join_lines(self, lines):
+        """Return a list of lines where the continuation lines of wrapped entries are appended to the first one."""
+        joined = []
+        for line in lines:
+            line = line.strip()
+            if line.startswith('"') and joined and joined[-1].endswith('"'):
+                joined[-1] = f'{joined[-1][:-1]}{line[1:]}'
+            else:
+                joined.append(line)
+        return joined
+
     def _extract_text(self, prefix, line):
         firstPos = len(prefix)
         lastPos = len(line) - 1
-- 
2.43.0


From a44d0243caf205982a50a29de4e2f25ae2027f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:15 +0000
Subject: [PATCH 72/79] fix: do not write "None" or drop names for missing
 values in template exports

---
 src/pywriter/file/file_export.py | 34 ++++++++++++++++----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index b4f523a..20b1311 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -114,8 +114,8 @@ class FileExport(File):
             FieldTitle2=self._convert_from_yw(self.novel.fieldTitle2, True),
             FieldTitle3=self._convert_from_yw(self.novel.fieldTitle3, True),
             FieldTitle4=self._convert_from_yw(self.novel.fieldTitle4, True),
-            Language=self.novel.languageCode,
-            Country=self.novel.countryCode,
+            Language=self.novel.languageCode or '',
+            Country=self.novel.countryCode or '',
         )
         return projectTemplateMapping
 
@@ -153,8 +153,8 @@ class FileExport(File):
             Desc=self._convert_from_yw(self.novel.chapters[chId].desc),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
-            Language=self.novel.languageCode,
-            Country=self.novel.countryCode,
+            Language=self.novel.languageCode or '',
+            Country=self.novel.countryCode or '',
         )
         return chapterMapping
 
@@ -270,7 +270,7 @@ class FileExport(File):
             Title=self._convert_from_yw(self.novel.characters[crId].title, True),
             Desc=self._convert_from_yw(self.novel.characters[crId].desc),
             Tags=self._convert_from_yw(tags),
-            Image=self.novel.characters[crId].image,
+            Image=self.novel.characters[crId].image or '',
             AKA=self._convert_from_yw(self.novel.characters[crId].aka, True),
             Notes=self._convert_from_yw(self.novel.characters[crId].notes),
             Bio=self._convert_from_yw(self.novel.characters[crId].bio),
@@ -333,7 +333,7 @@ class FileExport(File):
             Title=self._convert_from_yw(self.novel.items[itId].title, True),
             Desc=self._convert_from_yw(self.novel.items[itId].desc),
             Tags=self._convert_from_yw(tags, True),
-            Image=self.novel.items[itId].image,
+            Image=self.novel.items[itId].image or '',
             AKA=self._convert_from_yw(self.novel.items[itId].aka, True),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
@@ -377,7 +377,7 @@ class FileExport(File):
             Title=self._convert_from_yw(self.novel.locations[lcId].title, True),
             Desc=self._convert_from_yw(self.novel.locations[lcId].desc),
             Tags=self._convert_from_yw(tags, True),
-            Image=self.novel.locations[lcId].image,
+            Image=self.novel.locations[lcId].image or '',
             AKA=self._convert_from_yw(self.novel.locations[lcId].aka, True),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
@@ -429,7 +429,7 @@ class FileExport(File):
             # viepoint characters
             sChList = []
             for crId in self.novel.scenes[scId].characters:
-                sChList.append(self.novel.characters[crId].title)
+                sChList.append(self.novel.characters[crId].title or '')
             sceneChars = list_to_string(sChList, divider=self._DIVIDER)
             viewpointChar = sChList[0]
         except:
@@ -440,7 +440,7 @@ class FileExport(File):
         if self.novel.scenes[scId].locations is not None:
             sLcList = []
             for lcId in self.novel.scenes[scId].locations:
-                sLcList.append(self.novel.locations[lcId].title)
+                sLcList.append(self.novel.locations[lcId].title or '')
             sceneLocs = list_to_string(sLcList, divider=self._DIVIDER)
         else:
             sceneLocs = ''
@@ -449,7 +449,7 @@ class FileExport(File):
         if self.novel.scenes[scId].items is not None:
             sItList = []
             for itId in self.novel.scenes[scId].items:
-                sItList.append(self.novel.items[itId].title)
+                sItList.append(self.novel.items[itId].title or '')
             sceneItems = list_to_string(sItList, divider=self._DIVIDER)
         else:
             sceneItems = ''
@@ -517,10 +517,10 @@ class FileExport(File):
             FieldTitle2=self._convert_from_yw(self.novel.fieldTitle2, True),
             FieldTitle3=self._convert_from_yw(self.novel.fieldTitle3, True),
             FieldTitle4=self._convert_from_yw(self.novel.fieldTitle4, True),
-            Field1=self.novel.scenes[scId].field1,
-            Field2=self.novel.scenes[scId].field2,
-            Field3=self.novel.scenes[scId].field3,
-            Field4=self.novel.scenes[scId].field4,
+            Field1=self.novel.scenes[scId].field1 or '',
+            Field2=self.novel.scenes[scId].field2 or '',
+            Field3=self.novel.scenes[scId].field3 or '',
+            Field4=self.novel.scenes[scId].field4 or '',
             Date=scDate,
             Time=scTime,
             Day=scDay,
@@ -534,7 +534,7 @@ class FileExport(File):
             Conflict=self._convert_from_yw(self.novel.scenes[scId].conflict),
             Outcome=self._convert_from_yw(self.novel.scenes[scId].outcome),
             Tags=self._convert_from_yw(tags, True),
-            Image=self.novel.scenes[scId].image,
+            Image=self.novel.scenes[scId].image or '',
             Characters=sceneChars,
             Viewpoint=viewpointChar,
             Locations=sceneLocs,
@@ -542,8 +542,8 @@ class FileExport(File):
             Notes=self._convert_from_yw(self.novel.scenes[scId].notes),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
-            Language=self.novel.languageCode,
-            Country=self.novel.countryCode,
+            Language=self.novel.languageCode or '',
+            Country=self.novel.countryCode or '',
         )
         return sceneMapping
 
-- 
2.43.0


From a851a735c704d6acb6811d08f9db5f84427dd9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:35 +0000
Subject: [PATCH 73/79] fix: open documents without a shell, whatever
 characters their path contains

---
 src/pywriter/file/doc_open.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/file/doc_open.py b/src/pywriter/file/doc_open.py
index 031b0d3..97a814e 100644
--- a/src/pywriter/file/doc_open.py
+++ b/src/pywriter/file/doc_open.py
@@ -5,6 +5,7 @@ For further information see https://github.com/peter88213/PyWriter
 Published under the MIT License (https://opensource.org/licenses/mit-license.php)
 """
 import os
+import subprocess
 from pywriter.pywriter_globals import *
 
 
@@ -15,11 +16,11 @@ def open_document(document):
         # Windows
     except:
         try:
-            os.system('xdg-open "%s"' % norm_path(document))
+            subprocess.call(['xdg-open', norm_path(document)])
             # Linux
         except:
             try:
-                os.system('open "%s"' % norm_path(document))
+                subprocess.call(['open', norm_path(document)])
                 # Mac
             except:
                 pass
-- 
2.43.0


From 489c331b59e68467e3e204e456105fb72a3884db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:03 +0000
Subject: [PATCH 74/79] fix: Ignore unknown scenes when reading a scene list

---
 src/pywriter/ods_r/ods_r_scenelist.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/ods_r/ods_r_scenelist.py b/src/pywriter/ods_r/ods_r_scenelist.py
index faac27a..73b2f80 100644
--- a/src/pywriter/ods_r/ods_r_scenelist.py
+++ b/src/pywriter/ods_r/ods_r_scenelist.py
@@ -37,7 +37,9 @@ class OdsRSceneList(OdsReader):
             if 'ScID:' in cells[i]:
                 scId = re.search(r'ScID\:([0-9]+)', cells[0]).group(1)
                 if not scId in self.novel.scenes:
-                    self.novel.scenes[scId] = Scene()
+                    continue
+                    # A new scene would not belong to any chapter.
+
                 i += 1
                 self.novel.scenes[scId].title = self._convert_to_yw(cells[i])
                 i += 1
-- 
2.43.0


From 3632bbceafa0c10ee06e3210c79f1c598b45dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:31 +0000
Subject: [PATCH 75/79] fix: Do not double the repeated blanks of a chapter
 heading read from a manuscript

---
 src/pywriter/odt_r/odt_r_manuscript.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 3b7bf74..9258c74 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -156,6 +156,4 @@ class OdtRManuscript(OdtRFormatted):
                 elif attr[0] == 'country':
                     if attr[1]:
                         self.novel.countryCode = attr[1]
-        elif tag == 's':
-            self._lines.append(' ')
 
-- 
2.43.0


From 95411fb1438451098e4fc1df0f3181ccd7b65984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:33 +0000
Subject: [PATCH 76/79] fix: Read documents whose styles do not name a country
 or a language

---
 src/pywriter/odt_r/odt_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 84ecd7d..5d028f7 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -83,6 +83,9 @@ class OdtParser(sax.ContentHandler):
         for defaultStyle in styles.findall('style:default-style', namespaces):
             if defaultStyle.get(f'{{{namespaces["style"]}}}family') == 'paragraph':
                 textProperties = defaultStyle.find('style:text-properties', namespaces)
+                if textProperties is None:
+                    break
+
                 lngCode = textProperties.get(f'{{{namespaces["fo"]}}}language')
                 ctrCode = textProperties.get(f'{{{namespaces["fo"]}}}country')
                 self._client.handle_starttag('body', [('language', lngCode), ('country', ctrCode)])
@@ -286,7 +289,7 @@ class OdtParser(sax.ContentHandler):
                 self._strongTags.append(self._style)
             if xmlAttributes.get('fo:language', False):
                 lngCode = xmlAttributes['fo:language']
-                ctrCode = xmlAttributes['fo:country']
+                ctrCode = xmlAttributes.get('fo:country', 'none')
                 if ctrCode != 'none':
                     locale = f'{lngCode}-{ctrCode}'
                 else:
-- 
2.43.0


From a3a70aac97a44a600374bbba58fc44bb60cf7ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:35 +0000
Subject: [PATCH 77/79] fix: Do not collect the languages twice when a project
 is read again

---
 src/pywriter/yw/yw7_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 648d459..02777b6 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1394,6 +1394,8 @@ class Yw7File(File):
 
     def _read_projectvars(self, root):
         """Read relevant project variables from the xml element tree."""
+        self.novel.languages = None
+        # This is necessary for re-reading.
         try:
             for xmlProjectvar in root.find('PROJECTVARS'):
                 if xmlProjectvar.find('Title') is not None:
-- 
2.43.0


From 976f0b75177b4cd5532f513df05ba15cfa395dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:46:28 +0000
Subject: [PATCH 78/79] fix: Keep the tabs and line breaks within the
 paragraphs of spreadsheet cells

---
 src/pywriter/ods_r/ods_parser.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/ods_r/ods_parser.py b/src/pywriter/ods_r/ods_parser.py
index dcda03d..24437cb 100644
--- a/src/pywriter/ods_r/ods_parser.py
+++ b/src/pywriter/ods_r/ods_parser.py
@@ -61,7 +61,7 @@ class OdsParser:
                 if cell.find('text:p', namespaces) is not None:
                     paragraphs = []
                     for par in cell.findall('text:p', namespaces):
-                        strippedText = ''.join(par.itertext())
+                        strippedText = self._get_text(par)
                         paragraphs.append(strippedText)
                     content = '\n'.join(paragraphs)
                     cells.append(content)
@@ -96,3 +96,20 @@ class OdsParser:
                 # print(cells)
         return rows
 
+    def _get_text(self, element):
+        """Return the text of an XML element, including the coded tabs and line breaks.
+        
+        Positional arguments:
+            element -- XML element containing text and nested elements.
+        """
+        TEXT_NAMESPACE = '{urn:oasis:names:tc:opendocument:xmlns:text:1.0}'
+        text = element.text or ''
+        for child in element:
+            if child.tag == f'{TEXT_NAMESPACE}tab':
+                text = f'{text}\t'
+            elif child.tag == f'{TEXT_NAMESPACE}line-break':
+                text = f'{text}\n'
+            else:
+                text = f'{text}{self._get_text(child)}'
+            text = f'{text}{child.tail or ""}'
+        return text
-- 
2.43.0


From 2764e8dcf2dde108a46b8f30959f71807a6b176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:56:52 +0000
Subject: [PATCH 79/79] fix: Keep a blank first line of a text when saving

---
 src/pywriter/yw/yw7_file.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 02777b6..2100e45 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1166,7 +1166,6 @@ class Yw7File(File):
                 line = re.sub(fr'\<\/{tag}\>', f']]></{tag}>', line)
             newlines.append(line)
         text = '\n'.join(newlines)
-        text = text.replace('<![CDATA[ \n', '<![CDATA[')
         text = text.replace('\n]]></', ']]></')
         if not self.novel.chapters:
             text = text.replace('<CHAPTERS />', '<CHAPTERS></CHAPTERS>')
-- 
2.43.0

