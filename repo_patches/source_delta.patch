From 120b4a362302ac7038920004d6c03c9db21ccf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 01/65] fix: report connected rects whose left edge ties with
 the sweep split position

---
 pdf2docx/common/share.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/common/share.py b/pdf2docx/common/share.py
index 37f17a4..559af4b 100644
--- a/pdf2docx/common/share.py
+++ b/pdf2docx/common/share.py
@@ -278,7 +278,7 @@ def solve_rects_intersection(V:list, num:int, index_groups:list):
     # filter rects according to their position to each intervals
     S11 = list(filter( lambda item: item[1][2]<=X, left ))
     S12 = list(filter( lambda item: item[1][2]>=X1, left ))
-    S22 = list(filter( lambda item: item[1][0]>X, right ))
+    S22 = list(filter( lambda item: item[1][0]>=X, right ))
     S21 = list(filter( lambda item: item[1][0]<=X0, right ))
     
     # intersection in x-direction is fullfilled, so check y-direction further
-- 
2.43.0


From 5fbe00b14345d74861b31b2b70d49ca13e0f3c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 02/65] fix: parse no page, instead of every page, when the
 page selection is empty

---
 pdf2docx/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index beb5d25..7af2e5e 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -72,7 +72,7 @@ class Converter:
         Returns:
             Converter: self
         """        
-        indexes = page_indexes if page_indexes else range(len(self._pages))
+        indexes = range(len(self._pages)) if page_indexes is None else page_indexes
         num_pages = len(indexes)
         for i, idx in enumerate(indexes, start=1):
             print(f'\rParsing Page {idx+1}: {i}/{num_pages}...', end='', flush=True)
-- 
2.43.0


From 6081850a3d618596ef85d3ef7cdd72f0766f7b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 03/65] fix: end=0 selects no page instead of every page

---
 pdf2docx/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 7af2e5e..1322950 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -348,7 +348,7 @@ class Converter:
         if pages: 
             indexes = [int(x) for x in pages if 0<=x<pdf_len]
         else:
-            end = end or pdf_len
+            if end is None: end = pdf_len
             s = slice(int(start), int(end))
             indexes = range(pdf_len)[s]
         
-- 
2.43.0


From d43727495a59074b9a2b93d0c2b166b01e1ba601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 04/65] fix: multi-processing parses the selected pages only,
 not all pages between the first and the last one

---
 pdf2docx/converter.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 1322950..96a75df 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -288,9 +288,8 @@ class Converter:
         '''
         # make vectors of arguments for the processes
         cpu = min(kwargs['cpu_count'], cpu_count()) if 'cpu_count' in kwargs else cpu_count()
-        start, end = min(page_indexes), max(page_indexes)
         prefix = 'pages' # json file writing parsed pages per process
-        vectors = [(i, cpu, start, end, self.filename_pdf, kwargs, f'{prefix}-{i}.json') for i in range(cpu)]
+        vectors = [(i, cpu, page_indexes, self.filename_pdf, kwargs, f'{prefix}-{i}.json') for i in range(cpu)]
 
         # start parsing processes
         pool = Pool()
@@ -315,19 +314,18 @@ class Converter:
             vector (list): A list containing required parameters.
                 * 0  : segment number for current process                
                 * 1  : count of CPUs
-                * 2,3: whole pages range to process since sometimes need only parts of pdf pages                
-                * 4  : pdf filename
-                * 5  : configuration parameters
-                * 6  : json filename storing parsed results
+                * 2  : indexes of all pages to process since sometimes need only parts of pdf pages
+                * 3  : pdf filename
+                * 4  : configuration parameters
+                * 5  : json filename storing parsed results
         '''
         # recreate the arguments
-        idx, cpu, s, e, pdf_filename, kwargs, json_filename = vector
+        idx, cpu, all_indexes, pdf_filename, kwargs, json_filename = vector
 
         # worker
         cv = Converter(pdf_filename)
 
         # all pages to process
-        all_indexes = range(s, e+1)
         num_pages = len(all_indexes)
 
         # pages per segment
-- 
2.43.0


From c659f3c21d8237e0b02260afcf090947981c885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 05/65] fix: default docx filename never overwrites the source
 pdf, e.g. X.PDF

---
 pdf2docx/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 96a75df..a7192da 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -102,7 +102,7 @@ class Converter:
             raise Exception('No parsed pages. Please parse page first.')
 
         # docx file to convert to        
-        filename = docx_filename if docx_filename else self.filename_pdf.replace('.pdf', '.docx')
+        filename = docx_filename if docx_filename else f'{os.path.splitext(self.filename_pdf)[0]}.docx'
         if os.path.exists(filename): os.remove(filename)
 
         # create page by page
-- 
2.43.0


From ed36dd50e7c6710c67095eea66368a5142e08507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 06/65] fix: restored floating images are created in docx, and
 not duplicated when restoring again

---
 pdf2docx/page/Blocks.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 45d7685..80f7aa6 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -101,6 +101,7 @@ class Blocks(Collection):
             Blocks: self
         '''
         self.reset()  # clean current instances
+        self.floating_image_blocks = []
         for raw_block in raws:
             block_type = raw_block.get('type', -1) # type: int
             
@@ -114,8 +115,11 @@ class Blocks(Collection):
             
             # floating image block
             elif block_type == BlockType.FLOAT_IMAGE.value:
-                block = ImageBlock(raw_block)
-                block.set_float_image_block()
+                # floating image blocks are stored apart from the flow layout
+                float_image = ImageBlock(raw_block)
+                float_image.set_float_image_block()
+                self.floating_image_blocks.append(float_image)
+                block = None
 
             # table block
             elif block_type in (BlockType.LATTICE_TABLE.value, BlockType.STREAM_TABLE.value):
-- 
2.43.0


From cf037141da1b594ac589cc7f2b547e340bef31ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 07/65] fix: keep the type of a stream table when restoring it

---
 pdf2docx/page/Blocks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 80f7aa6..9e81b65 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -124,6 +124,7 @@ class Blocks(Collection):
             # table block
             elif block_type in (BlockType.LATTICE_TABLE.value, BlockType.STREAM_TABLE.value):
                 block = TableBlock(raw_block)
+                if block_type==BlockType.STREAM_TABLE.value: block.set_stream_table_block()
             
             else:
                 block = None            
-- 
2.43.0


From e74056f1ab78031b7e955a84377b645c8a918f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 08/65] fix: superscript is a property of the docx font, not of
 the run

---
 pdf2docx/text/TextSpan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index ed821a3..34012da 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -398,7 +398,7 @@ class TextSpan(Element):
         # bit 2: serifed (2^2)
         # bit 3: monospaced (2^3)
         # bit 4: bold (2^4)
-        docx_run.superscript = bool(self.flags & 2**0)
+        docx_run.font.superscript = bool(self.flags & 2**0)
         docx_run.italic = bool(self.flags & 2**1)
         docx_run.bold = bool(self.flags & 2**4)
 
-- 
2.43.0


From 5c8ac625a61166eef2765a238bce801871f7ba23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 09/65] fix: do not lose the page with a ZeroDivisionError on
 tiny font size

---
 pdf2docx/text/TextSpan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 34012da..c7267a6 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -411,7 +411,7 @@ class TextSpan(Element):
         # font size
         # NOTE: only x.0 and x.5 is accepted in docx, so set character scaling accordingly
         # if the font size doesn't meet this condition.
-        font_size = round(self.size*2)/2.0
+        font_size = max(round(self.size*2)/2.0, 0.5)
         docx_run.font.size = Pt(font_size)
 
         # adjust by set scaling
-- 
2.43.0


From 34dac762bf429584820e9857b4576787cd4272b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 10/65] fix: strip redundant blanks on the right side also when
 the left side was stripped

---
 pdf2docx/text/Spans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/text/Spans.py b/pdf2docx/text/Spans.py
index 54600a3..5b48aa4 100644
--- a/pdf2docx/text/Spans.py
+++ b/pdf2docx/text/Spans.py
@@ -45,7 +45,7 @@ class Spans(Collection):
 
         # right strip the last span
         right_span = self._instances[-1]
-        if isinstance(right_span, TextSpan): stripped = stripped or right_span.rstrip()
+        if isinstance(right_span, TextSpan): stripped = right_span.rstrip() or stripped
 
         # update bbox
         if stripped: self._parent.update_bbox(self.bbox)
-- 
2.43.0


From 16258609572ea14c0012368a15534960ce244676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 11/65] fix: multi-processing does not overwrite and remove
 pages-*.json of the user

---
 pdf2docx/converter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index a7192da..06a2b09 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -4,6 +4,7 @@ import os
 import json
 from time import perf_counter
 from multiprocessing import Pool, cpu_count
+from tempfile import TemporaryDirectory
 import fitz
 from docx import Document
 from .page.Page import Page
@@ -288,7 +289,8 @@ class Converter:
         '''
         # make vectors of arguments for the processes
         cpu = min(kwargs['cpu_count'], cpu_count()) if 'cpu_count' in kwargs else cpu_count()
-        prefix = 'pages' # json file writing parsed pages per process
+        folder = TemporaryDirectory()
+        prefix = os.path.join(folder.name, 'pages') # json file writing parsed pages per process
         vectors = [(i, cpu, page_indexes, self.filename_pdf, kwargs, f'{prefix}-{i}.json') for i in range(cpu)]
 
         # start parsing processes
-- 
2.43.0


From 7e7d89d9fd83671185271a79802141244cf3536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 12/65] fix: restored pages are not rotated again

---
 pdf2docx/converter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 06a2b09..b53f7ee 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -7,6 +7,7 @@ from multiprocessing import Pool, cpu_count
 from tempfile import TemporaryDirectory
 import fitz
 from docx import Document
+from .common.Element import Element
 from .page.Page import Page
 
 
@@ -133,6 +134,8 @@ class Converter:
 
     def restore(self, data:dict):
         '''Restore pages from parsed results.'''
+        # parsed results are in real page CS already, so ignore the rotation of pages parsed before
+        Element.set_rotation_matrix(fitz.Matrix(0.0))
         for raw_page in data.get('pages', []):
             idx = raw_page.get('id', -1)
             self._pages[idx].restore(raw_page)
-- 
2.43.0


From 4388e9643b4eaf93fc90d4713f541e2177483d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 13/65] fix: disjoint rects are not intersected, i.e. check
 validity of the intersection rect

---
 pdf2docx/common/Collection.py     | 2 +-
 pdf2docx/common/Element.py        | 2 +-
 pdf2docx/image/ImagesExtractor.py | 2 +-
 pdf2docx/table/Cell.py            | 4 ++--
 pdf2docx/text/Char.py             | 1 +
 pdf2docx/text/Lines.py            | 2 +-
 pdf2docx/text/TextSpan.py         | 2 +-
 7 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/pdf2docx/common/Collection.py b/pdf2docx/common/Collection.py
index 83e803d..5aed9e6 100644
--- a/pdf2docx/common/Collection.py
+++ b/pdf2docx/common/Collection.py
@@ -49,7 +49,7 @@ class BaseCollection:
         Examples 1::
 
             # group instances intersected with each other
-            fun = lambda a,b: a.bbox & b.bbox
+            fun = lambda a,b: (a.bbox & b.bbox).is_valid
         
         Examples 2::
 
diff --git a/pdf2docx/common/Element.py b/pdf2docx/common/Element.py
index 306192f..c0e37b1 100644
--- a/pdf2docx/common/Element.py
+++ b/pdf2docx/common/Element.py
@@ -175,7 +175,7 @@ class Element(IText):
         
         # areas
         b = bbox_1 & bbox_2
-        if not b: return None # no intersection
+        if not b.is_valid: return None # no intersection
 
         a1, a2, a = bbox_1.getArea(), bbox_2.getArea(), b.getArea()        
 
diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 43012f3..efddc51 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -87,7 +87,7 @@ class ImagesExtractor:
         contours = cls._detect_svg_contours(page, exclude_areas)
 
         # filter contours
-        fun = lambda a,b: a.bbox & b.bbox
+        fun = lambda a,b: (a.bbox & b.bbox).is_valid
         groups = contours.group(fun)
 
         # clip images
diff --git a/pdf2docx/table/Cell.py b/pdf2docx/table/Cell.py
index 16dea4d..76d6438 100644
--- a/pdf2docx/table/Cell.py
+++ b/pdf2docx/table/Cell.py
@@ -117,7 +117,7 @@ class Cell(Element):
             return
         
         # add nothing if no intersection
-        if not self.bbox & block.bbox: return
+        if not (self.bbox & block.bbox).is_valid: return
 
         # otherwise, further check lines in text block
         if not block.is_text_image_block():  return
@@ -137,7 +137,7 @@ class Cell(Element):
         '''
         # add shape if contained in cell
         for shape in shapes:
-            if self.bbox & shape.bbox: self.layout.shapes.append(shape)
+            if (self.bbox & shape.bbox).is_valid: self.layout.shapes.append(shape)
         self.layout.shapes.detect_initial_categories()
 
 
diff --git a/pdf2docx/text/Char.py b/pdf2docx/text/Char.py
index d895f33..8867fc8 100644
--- a/pdf2docx/text/Char.py
+++ b/pdf2docx/text/Char.py
@@ -46,6 +46,7 @@ class Char(Element):
         # intersection?
         else:
             intsec = self.bbox & rect.bbox
+            if not intsec.is_valid: return False
             if horizontal:
                 return intsec.width > 0.5*self.bbox.width
             else:
diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 7c6df23..8573b0b 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -272,7 +272,7 @@ class Lines(Collection):
             # any intersection in this line?
             intsec = rect.bbox & line.get_expand_bbox(constants.MAJOR_DIST)
             
-            if not intsec: 
+            if not intsec.is_valid: 
                 if rect.bbox.y1 < line.bbox.y0: break # lines must be sorted in advance
                 continue
 
diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index c7267a6..d8456b9 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -214,7 +214,7 @@ class TextSpan(Element):
         intsec = rect.bbox & self.bbox
 
         # no, then add this span as it is
-        if not intsec: return [self]
+        if not intsec.is_valid: return [self]
 
         # yes, then split spans:
         # - add new style to the intersection part
-- 
2.43.0


From 978e5b9608b43c77304c0524283ffe85ff8fb63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 14/65] fix: keep the span as it is if no char is contained in
 the style rect

---
 pdf2docx/text/TextSpan.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index d8456b9..f20962a 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -235,6 +235,7 @@ class TextSpan(Element):
         # combine an index with enumerate(), so the second element is the char
         f = lambda items: items[1].contained_in_rect(rect, horizontal)
         index_chars = list(filter(f, enumerate(self.chars)))
+        if not index_chars: return [self] # no char to apply the style
 
         # then we get target chars in a sequence
         pos = index_chars[0][0] if index_chars else -1 # start index -1 if nothing found
-- 
2.43.0


From 16c312953ada8daceba30acdff219207316b28e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 15/65] fix: recover page text after clipping page image, so
 the source page is not changed

---
 pdf2docx/image/ImagesExtractor.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index efddc51..677d963 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -94,7 +94,7 @@ class ImagesExtractor:
         images = []
         for group in groups:
             bbox = group.bbox
-            pix = page.getPixmap(clip=bbox, matrix=fitz.Matrix(clip_image_res_ratio, clip_image_res_ratio))
+            pix = cls._clip_page(page, bbox, zoom=clip_image_res_ratio)
             raw_dict = cls._to_raw_dict(pix, bbox)
             images.append(raw_dict)
         
@@ -169,6 +169,9 @@ class ImagesExtractor:
 
         Args:
             page (fitz.Page): pdf page to extract.
+        
+        Returns:
+            dict: Source content streams, ``{xref: stream}``, to recover page text after clipping.
         """
         # render Tr: set the text rendering mode
         # - 3: neither fill nor stroke the text -> invisible
@@ -176,11 +179,13 @@ class ImagesExtractor:
         # - https://github.com/pymupdf/PyMuPDF/issues/257
         # - https://www.adobe.com/content/dam/acom/en/devnet/pdf/pdfs/pdf_reference_archives/PDFReference.pdf
         doc = page.parent
-        for xref in page.get_contents():
-            stream = doc.xrefStream(xref).replace(b'BT', b'BT 3 Tr') \
+        source = {xref: doc.xrefStream(xref) for xref in page.get_contents()}
+        for xref in source:
+            stream = source[xref].replace(b'BT', b'BT 3 Tr') \
                                              .replace(b'Tm', b'Tm 3 Tr') \
                                              .replace(b'Td', b'Td 3 Tr')
             doc.updateStream(xref, stream)
+        return source
 
 
     @classmethod
@@ -195,14 +200,17 @@ class ImagesExtractor:
         Returns:
             fitz.Pixmap: The extracted pixmap.
         """        
-        # hide text 
-        cls._hide_page_text(page)
+        # hide text temporally
+        source = cls._hide_page_text(page)
         
         # improve resolution
         # - https://pymupdf.readthedocs.io/en/latest/faq.html#how-to-increase-image-resolution
         # - https://github.com/pymupdf/PyMuPDF/issues/181
         bbox = page.rect if bbox is None else bbox & page.rect
-        return page.getPixmap(clip=bbox, matrix=fitz.Matrix(zoom, zoom)) # type: fitz.Pixmap
+        try:
+            return page.getPixmap(clip=bbox, matrix=fitz.Matrix(zoom, zoom)) # type: fitz.Pixmap
+        finally:
+            for xref, stream in source.items(): page.parent.updateStream(xref, stream)
 
    
     @staticmethod
-- 
2.43.0


From be6a4b4188a8b415821cef163df02bb16c0bc4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 16/65] fix: exclude areas close to the top or left page edge
 when detecting vector graphics

---
 pdf2docx/image/ImagesExtractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 677d963..6a580fb 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -115,7 +115,7 @@ class ImagesExtractor:
         gray = cv.cvtColor(src, cv.COLOR_BGR2GRAY)
         for bbox in exclude_areas:
             x0, y0, x1, y1 = map(int, bbox)
-            gray[y0-2:y1+2, x0-2:x1+2] = 255
+            gray[max(y0-2,0):max(y1+2,0), max(x0-2,0):max(x1+2,0)] = 255
             # cv.rectangle(src, (x0,y0), (x1,y1), (0,255,0), 1) # plot excluded areas
 
         # Gauss blur and binary        
-- 
2.43.0


From 9e943a41e4a94760ef01cc9232bb337cfd44c226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 17/65] fix: convert/extract_tables ignores pages selected by
 previous runs of the same converter

---
 pdf2docx/converter.py | 7 +++++++
 pdf2docx/page/Page.py | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index b53f7ee..f917028 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -233,6 +233,7 @@ class Converter:
         
         # pages to convert
         page_indexes = self._page_indexes(start, end, pages, len(self))
+        self._ignore_parsed_pages()
         
         # convert page by page
         t0 = perf_counter()        
@@ -258,6 +259,7 @@ class Converter:
         # PDF pages to convert
         kwargs = kwargs if kwargs else {}
         page_indexes = self._page_indexes(start, end, pages, len(self))
+        self._ignore_parsed_pages()
 
         # process page by page
         self.parse(page_indexes, kwargs)
@@ -269,6 +271,11 @@ class Converter:
         return tables
 
 
+    def _ignore_parsed_pages(self):
+        '''Ignore pages parsed in previous runs since they may be out of current page selection.'''
+        for page in self._pages: page._finalized = False
+
+
     def _parse_and_create_pages(self, docx_filename:str, page_indexes:list, kwargs:dict):
         '''Parse and create pages based on page indexes.
         
diff --git a/pdf2docx/page/Page.py b/pdf2docx/page/Page.py
index 22a7629..fd76041 100644
--- a/pdf2docx/page/Page.py
+++ b/pdf2docx/page/Page.py
@@ -142,6 +142,9 @@ class Page(RawPage):
 
     def parse(self, settings:dict=None):
         '''Parse page layout.'''
+        # not parsed yet, even though it was parsed before
+        self._finalized = False
+
         # update parameters
         self.settings = self.init_settings(settings)
 
-- 
2.43.0


From 83408887a829de1ebbdad7b672bc75d6cc5d1902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:59 +0000
Subject: [PATCH 18/65] fix: vector path given by inverted rectangle or without
 line width

A fill-only path has no line width, so a degenerate one raised an error
and its page was lost; so did any inverted rectangle, e.g. on a rotated
page.
---
 pdf2docx/shape/Path.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index 7b9bd4c..b114378 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -66,7 +66,8 @@ class L(Segment):
 class R(Segment):
     '''Rect path with source ``("re", rect)``.'''
     def __init__(self, item):
-        self.rect = item[1]
+        # NOTE: corner points may be given in any order, e.g. rotated page
+        self.rect = fitz.Rect(item[1]).normalize()
 
     def to_strokes(self, width:float, color:list):
         """Convert each edge to stroke dict.
@@ -212,7 +213,8 @@ class Path:
         # path segments
         self.items = [] # type: list[Segments]
         self.bbox = fitz.Rect()
-        close_path, w = raw['closePath'], raw['width']
+        # NOTE: no width for a fill-only path
+        close_path, w = raw['closePath'], raw['width'] or 0.0
         for segments in self._group_segments(raw['items']):
             S = Segments(segments, close_path)
             self.items.append(S)
-- 
2.43.0


From 187271131179913e3b5130bc7261d6c3a75ab3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 19/65] fix: text and images across cell borders were lost or
 duplicated

A character or image was assigned to a cell by the overlap with this
single cell, so content shared by several cells, or located partly outside
the table, got lost, while the part of a block exceeding its cell was
taken by the adjacent cell once more. Now adjacent cells share the content
by its center.
---
 pdf2docx/common/Element.py   | 11 +++++++++
 pdf2docx/image/ImageSpan.py  |  6 ++---
 pdf2docx/table/Cell.py       | 44 +++++++++++++++---------------------
 pdf2docx/table/TableBlock.py | 34 +++++++++++++++++++++++-----
 pdf2docx/text/TextSpan.py    |  2 +-
 5 files changed, 60 insertions(+), 37 deletions(-)

diff --git a/pdf2docx/common/Element.py b/pdf2docx/common/Element.py
index c0e37b1..7e13540 100644
--- a/pdf2docx/common/Element.py
+++ b/pdf2docx/common/Element.py
@@ -185,6 +185,17 @@ class Element(IText):
         return bbox_1 | bbox_2 if factor >= threshold else None
 
 
+    def located_in(self, rect):
+        '''Whether the center is in ``rect``, so this instance is located in exactly one of adjacent boxes.
+
+        Args:
+            rect (fitz.Rect): Target rect.
+        '''
+        x = (self.bbox.x0 + self.bbox.x1) / 2.0
+        y = (self.bbox.y0 + self.bbox.y1) / 2.0
+        return rect.x0<=x<rect.x1 and rect.y0<=y<rect.y1
+
+
     def vertically_align_with(self, e, factor:float=0.0, text_direction:bool=True):
         '''Check whether two Element instances have enough intersection in vertical direction, i.e. perpendicular to reading direction.
         
diff --git a/pdf2docx/image/ImageSpan.py b/pdf2docx/image/ImageSpan.py
index 9c8e456..1e6ab4b 100644
--- a/pdf2docx/image/ImageSpan.py
+++ b/pdf2docx/image/ImageSpan.py
@@ -3,7 +3,6 @@
 '''Image span based on same raw data structure with Image block.
 '''
 
-from ..common import constants
 from .Image import Image
 
 
@@ -22,9 +21,8 @@ class ImageSpan(Image):
         Returns:
             ImageSpan: A copy of itself if intersects with target; otherwise empty ImageSpan. 
         '''
-        # add image span if most of of the image is contained in bbox
-        if self.get_main_bbox(rect, constants.FACTOR_MAJOR):
-            return self.copy()
+        # add image span if the image is located in bbox
+        if self.located_in(rect): return self.copy()
         
         # otherwise, ignore image
         return ImageSpan()
\ No newline at end of file
diff --git a/pdf2docx/table/Cell.py b/pdf2docx/table/Cell.py
index 76d6438..4d070dd 100644
--- a/pdf2docx/table/Cell.py
+++ b/pdf2docx/table/Cell.py
@@ -3,9 +3,10 @@
 '''Table Cell object.
 '''
 
+import fitz
 from docx.shared import Pt
 from ..common.Element import Element
-from ..common import docx, constants
+from ..common import docx
 from ..text.TextBlock import TextBlock
 from ..page import Layout # avoid import conflict
 
@@ -93,42 +94,33 @@ class Cell(Element):
         self.layout.blocks.plot(page)
 
 
-    def assign_blocks(self, blocks:list):
-        '''Add blocks to this cell. 
+    def assign_block(self, block):
+        '''Add text/table block to this cell.'''
+        self.layout.blocks.append(block)
+
+
+    def assign_lines(self, block, region:fitz.Rect):
+        '''Add the part of text block located in the region of this cell.
         
         Args:
-            blocks (list): a list of text/table block to add.
+            block (TextBlock): Text block to add.
+            region (fitz.Rect): Region of this cell.
         
         .. note::
-            If a text block is partly contained in a cell, it must deep into line -> span -> char.
-        '''
-        for block in blocks: self._assign_block(block)
-    
-
-    def _assign_block(self, block):
-        '''Add block to this cell. 
-        
-        Args:
-            block (TextBlock, TableBlock): Text/table block to add. 
+            It must deep into line -> span -> char.
         '''
-        # add block directly if fully contained in cell
-        if self.contains(block, constants.FACTOR_ALMOST):
-            self.layout.blocks.append(block)
-            return
-        
-        # add nothing if no intersection
-        if not (self.bbox & block.bbox).is_valid: return
-
-        # otherwise, further check lines in text block
-        if not block.is_text_image_block():  return
-        
         # NOTE: add each line as a single text block to avoid overlap between table block and combined lines
         split_block = TextBlock()
-        lines = [line.intersects(self.bbox) for line in block.lines]
+        lines = [line.intersects(region) for line in block.lines]
         split_block.add(lines)
         self.layout.blocks.append(split_block)
 
 
+    def intersection_area(self, block):
+        '''Area of the intersection with ``block``.'''
+        return (self.bbox & block.bbox).getArea()
+
+
     def assign_shapes(self, shapes:list):
         '''Add shapes to this cell. 
         
diff --git a/pdf2docx/table/TableBlock.py b/pdf2docx/table/TableBlock.py
index 51f2476..04a99f8 100644
--- a/pdf2docx/table/TableBlock.py
+++ b/pdf2docx/table/TableBlock.py
@@ -30,11 +30,11 @@ Data Structure::
     }
 '''
 
-
+import fitz
 from .Row import Row
 from .Rows import Rows
 from ..common.Block import Block
-from ..common import docx
+from ..common import constants, docx
 
 
 class TableBlock(Block):
@@ -107,10 +107,32 @@ class TableBlock(Block):
         Args:
             blocks (list): A list of text/table blocks.
         '''
-        for row in self._rows:
-            for cell in row:
-                if not cell: continue
-                cell.assign_blocks(blocks)
+        cells = [cell for row in self._rows for cell in row if cell]
+        for block in blocks:
+            # add block directly if fully contained in one cell
+            for cell in cells:
+                if cell.contains(block, constants.FACTOR_ALMOST):
+                    cell.assign_block(block)
+                    break
+
+            # otherwise, text goes to cells char by char, and anything else to the main cell
+            else:
+                if block.is_text_image_block():
+                    for cell in cells: cell.assign_lines(block, self._region(cell, block.bbox))
+                elif cells:
+                    max(cells, key=lambda cell: cell.intersection_area(block)).assign_block(block)
+
+
+    def _region(self, cell, bbox):
+        '''Region of ``cell``, extended to ``bbox`` at the border of this table, so that the 
+        regions of all cells cover ``bbox`` without overlap.'''
+        x0, y0, x1, y1 = cell.bbox
+        d = constants.MINOR_DIST
+        if x0 <= self.bbox.x0: x0 = min(x0, bbox.x0-d)
+        if y0 <= self.bbox.y0: y0 = min(y0, bbox.y0-d)
+        if x1 >= self.bbox.x1: x1 = max(x1, bbox.x1+d)
+        if y1 >= self.bbox.y1: y1 = max(y1, bbox.y1+d)
+        return fitz.Rect(x0, y0, x1, y1)
 
 
     def assign_shapes(self, shapes:list):
diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index f20962a..2c6fda7 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -360,7 +360,7 @@ class TextSpan(Element):
         span.update_bbox((0.0,0.0,0.0,0.0))
 
         for char in self.chars:
-            if char.get_main_bbox(rect, constants.FACTOR_A_HALF): # contains at least a half part
+            if char.located_in(rect):
                 span.chars.append(char)
                 span.union_bbox(char)
 
-- 
2.43.0


From d534eebfa96e7e0364a1f4bbc38888a90f96a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 20/65] fix: characters of zero width shifted a text style off
 the marked characters

---
 pdf2docx/text/TextSpan.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 2c6fda7..2f0ddeb 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -238,9 +238,9 @@ class TextSpan(Element):
         if not index_chars: return [self] # no char to apply the style
 
         # then we get target chars in a sequence
-        pos = index_chars[0][0] if index_chars else -1 # start index -1 if nothing found
-        length = len(index_chars)
-        pos_end = max(pos+length, 0) # max() is used in case: pos=-1, length=0
+        pos = index_chars[0][0]
+        pos_end = index_chars[-1][0] + 1 # NOTE: zero-width chars in between are not in index_chars
+        length = pos_end - pos
 
         # split span with the intersection: span-intersection-span
         # 
-- 
2.43.0


From c90431cb69c82900a20a37fed3af80ecd4c0e83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 21/65] fix: paths, images and vector graphics of rotated pages
 were misplaced

getDrawings of newer PyMuPDF is relative to the un-rotated page, the bbox of
getImageBbox and of detected contours to the rotated one, while raw dicts are
relative to the un-rotated page.
---
 pdf2docx/image/ImagesExtractor.py |  6 +++--
 pdf2docx/page/RawPage.py          | 37 +++++++++++++++++++++++++++++--
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 6a580fb..eeb6df2 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -62,7 +62,8 @@ class ImagesExtractor:
             if not pix.colorspace:
                 pix = cls._clip_page(page, bbox, zoom=clip_image_res_ratio)
 
-            raw_dict = cls._to_raw_dict(pix, bbox)
+            # NOTE: bbox is in real page CS, while raw dict should be relative to un-rotated page
+            raw_dict = cls._to_raw_dict(pix, bbox*page.derotationMatrix)
             images.append(raw_dict)
         return images
     
@@ -95,7 +96,8 @@ class ImagesExtractor:
         for group in groups:
             bbox = group.bbox
             pix = cls._clip_page(page, bbox, zoom=clip_image_res_ratio)
-            raw_dict = cls._to_raw_dict(pix, bbox)
+            # NOTE: bbox is in real page CS, while raw dict should be relative to un-rotated page
+            raw_dict = cls._to_raw_dict(pix, bbox*page.derotationMatrix)
             images.append(raw_dict)
         
         return images
diff --git a/pdf2docx/page/RawPage.py b/pdf2docx/page/RawPage.py
index 8fb5a86..4c0ba69 100644
--- a/pdf2docx/page/RawPage.py
+++ b/pdf2docx/page/RawPage.py
@@ -20,6 +20,7 @@ is described per link https://pymupdf.readthedocs.io/en/latest/textpage.html::
 In addition to the raw layout dict, rectangle shapes are also included.
 '''
 
+import fitz
 from collections import defaultdict
 from ..image.ImagesExtractor import ImagesExtractor
 from ..shape.Paths import Paths
@@ -127,7 +128,7 @@ class RawPage:
     def _preprocess_shapes(self, raw):
         '''Identify iso-oriented paths and convert vector graphic paths to pixmap.'''
         # extract paths ed by `page.getDrawings()`
-        raw_paths = self.fitz_page.getDrawings()
+        raw_paths = self._get_drawings(self.fitz_page)
 
         # iso-oriented paths to shapes
         paths = Paths(parent=self).restore(raw_paths)
@@ -137,7 +138,8 @@ class RawPage:
         # vector graphics (curved paths in general) to images
         if exist_svg:
             excluding_areas = iso_areas
-            excluding_areas.extend([block['bbox'] for block in raw['blocks'] if block['type']==1]) # normal images
+            excluding_areas.extend([fitz.Rect(block['bbox'])*self.fitz_page.rotationMatrix \
+                for block in raw['blocks'] if block['type']==1]) # normal images, to real page CS
             images = ImagesExtractor.extract_vector_graphics(
                 self.fitz_page, excluding_areas, self.settings['clip_image_res_ratio'])
             raw['blocks'].extend(images)
@@ -149,6 +151,37 @@ class RawPage:
         return paths
     
 
+    @staticmethod
+    def _get_drawings(page):
+        """Get source paths in real page CS, i.e. with rotation considered.
+
+        Args:
+            page (fitz.Page): pdf page.
+
+        Returns:
+            list: A list of raw path dict.
+        
+        .. note::
+            It depends on the version of ``PyMuPDF`` whether ``page.getDrawings()`` considers the page 
+            rotation, so get paths from un-rotated page and then rotate them explicitly.
+        """
+        rotation, matrix = page.rotation, page.rotationMatrix
+        if not rotation: return page.getDrawings()
+
+        page.setRotation(0)
+        try:
+            raw_paths = page.getDrawings()
+        finally:
+            page.setRotation(rotation)
+
+        # items: (command, point/rect/quad, ...)
+        rotate = lambda e: e*matrix if isinstance(e, (fitz.Point, fitz.Rect, fitz.Quad)) else e
+        for raw in raw_paths:
+            raw['rect'] = raw['rect'] * matrix
+            raw['items'] = [tuple(map(rotate, item)) for item in raw['items']]
+        return raw_paths
+
+
     @staticmethod
     def _preprocess_hyperlinks(page):
         """Get source hyperlink dicts.
-- 
2.43.0


From 846de8fd9b23385bbee5eba2c467ec292a4d8462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:59 +0000
Subject: [PATCH 22/65] fix: pages smaller than 50 points failed when detecting
 vector graphics

---
 pdf2docx/image/ImagesExtractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index eeb6df2..6312ef7 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -126,7 +126,7 @@ class ImagesExtractor:
         
         # detect contour with opencv
         rows, cols = binary.shape[0:2]
-        kernel = cv.getStructuringElement(cv.MORPH_RECT, (cols//50, rows//50))
+        kernel = cv.getStructuringElement(cv.MORPH_RECT, (max(cols//50,1), max(rows//50,1)))
         dst = cv.morphologyEx(binary, cv.MORPH_CLOSE, kernel) # close
         contours, hierarchy = cv.findContours(dst,cv.RETR_EXTERNAL,cv.CHAIN_APPROX_SIMPLE)
         
-- 
2.43.0


From 9d0b3408718ca10c0fafd4048a8306d1c9bbec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:59 +0000
Subject: [PATCH 23/65] fix: overlapping merged cells, tables without columns
 and rows of merged cells only lost the page

---
 pdf2docx/table/Rows.py           |  8 ++++++++
 pdf2docx/table/TableStructure.py | 19 ++++++++++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/table/Rows.py b/pdf2docx/table/Rows.py
index 24b9d3d..e360d2c 100644
--- a/pdf2docx/table/Rows.py
+++ b/pdf2docx/table/Rows.py
@@ -23,3 +23,11 @@ class Rows(Collection):
             row = Row(raw)
             self.append(row)
         return self
+
+
+    def append(self, row:Row):
+        '''Override. Append a row (allow empty row, i.e. all cells are merged by cells above) and 
+        update bbox accordingly.'''
+        self._instances.append(row)
+        self._update_bbox(row)
+        row.parent = self._parent # set parent
diff --git a/pdf2docx/table/TableStructure.py b/pdf2docx/table/TableStructure.py
index 80db6bc..2fa1c2b 100644
--- a/pdf2docx/table/TableStructure.py
+++ b/pdf2docx/table/TableStructure.py
@@ -407,6 +407,9 @@ class TableStructure:
         y_rows = sorted(self.h_strokes)
         x_cols = sorted(self.v_strokes)
 
+        # no lattice, e.g. only one column coordinate
+        if len(x_cols)<2: return []
+
         # each lattice is a cell
         cells = []
         for i in range(len(y_rows)-1):
@@ -440,13 +443,27 @@ class TableStructure:
             merged_cells_cols.append(col_structure)
 
         # check merged cells
+        # NOTE: merged ranges must not overlap with each other, and a lattice not covered by any other cell, 
+        # e.g. part of an L-shape region, is a separate cell
+        occupied = set() # lattices covered by cells in front
+        is_free = lambda i, j: (i, j) not in occupied and not (merged_cells_rows[i][j] and merged_cells_cols[j][i])
         for i in range(self.num_rows):
             for j in range(self.num_cols):
                 cell = self.cells[i][j]
+                if (i, j) in occupied:
+                    cell.merged_cells = (0, 0)
+                    continue
+
                 # check merged columns/rows in row/column direction
                 n_col = TableStructure._count_merged_cells(merged_cells_rows[i][j:])
-                n_row = TableStructure._count_merged_cells(merged_cells_cols[j][i:])                
+                n_row = TableStructure._count_merged_cells(merged_cells_cols[j][i:])
+                cols, rows = range(j, j+1), range(i, i+1)
+                while len(cols)<n_col and is_free(i, cols.stop): cols = range(j, cols.stop+1)
+                while len(rows)<n_row and all(is_free(rows.stop, n) for n in cols): rows = range(i, rows.stop+1)
+                
+                n_row, n_col = len(rows), len(cols)
                 cell.merged_cells = (n_row, n_col)
+                occupied.update((m, n) for m in rows for n in cols)
 
                 # update merged bbox
                 # A separate cell without merging can also be treated as a merged range 
-- 
2.43.0


From d0260d7550f6bd02fb9ed02a001b5256038af78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:07 +0000
Subject: [PATCH 24/65] fix: characters not allowed in xml lost the page or the
 document

---
 pdf2docx/common/docx.py   | 19 ++++++++++++++++++-
 pdf2docx/text/TextSpan.py |  9 ++++++---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/pdf2docx/common/docx.py b/pdf2docx/common/docx.py
index 97ab975..eeb4949 100644
--- a/pdf2docx/common/docx.py
+++ b/pdf2docx/common/docx.py
@@ -3,6 +3,7 @@
 '''docx operation methods based on ``python-docx``.
 '''
 
+import re
 from docx.shared import Pt
 from docx.oxml import OxmlElement, parse_xml, register_element_cls
 from docx.oxml.ns import qn, nsdecls
@@ -17,6 +18,22 @@ from .share import rgb_value
 from . import constants
 
 
+# ---------------------------------------------------------
+# text
+# ---------------------------------------------------------
+def xml_text(text:str):
+    '''Replace characters not allowed in xml, e.g. control characters, surrogates, which can't be 
+    stored in docx, with the replacement character.
+
+    Args:
+        text (str): Text extracted from PDF.
+
+    Returns:
+        str: Text allowed in xml.
+    '''
+    return re.sub('[^\t\n\r\u0020-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]', '\ufffd', text)
+
+
 # ---------------------------------------------------------
 # paragraph
 # ---------------------------------------------------------
@@ -164,7 +181,7 @@ def add_hyperlink(paragraph, url, text):
 
     # This gets access to the document.xml.rels file and gets a new relation id value
     part = paragraph.part
-    r_id = part.relate_to(url, RELATIONSHIP_TYPE.HYPERLINK, is_external=True)
+    r_id = part.relate_to(xml_text(url), RELATIONSHIP_TYPE.HYPERLINK, is_external=True)
 
     # Create the w:hyperlink tag and add needed values
     hyperlink = OxmlElement('w:hyperlink')
diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 2f0ddeb..0d13cab 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -375,13 +375,16 @@ class TextSpan(Element):
             underline, the text and uri is parsed as hyperlink itself, while the underline is treated as a normal text
             style.
         '''
+        # NOTE: some characters extracted from pdf are not allowed in docx
+        text = docx.xml_text(self.text)
+
         # Create hyperlink in particular, otherwise add a run directly
         for style in self.style:
             if style['type']==RectType.HYPERLINK.value and self.text.strip():
-                docx_run = docx.add_hyperlink(paragraph, style['uri'], self.text)
+                docx_run = docx.add_hyperlink(paragraph, style['uri'], text)
                 break
         else:
-            docx_run = paragraph.add_run(self.text)
+            docx_run = paragraph.add_run(text)
         
         # set text style, e.g. font, underline and highlight
         self._set_text_format(docx_run)
@@ -404,7 +407,7 @@ class TextSpan(Element):
         docx_run.bold = bool(self.flags & 2**4)
 
         # font name
-        font_name = self.font
+        font_name = docx.xml_text(self.font)
         docx_run.font.name = font_name
         docx_run._element.rPr.rFonts.set(qn('w:eastAsia'), font_name) # set font for chinese characters
         docx_run.font.color.rgb = RGBColor(*share.rgb_component(self.color))
-- 
2.43.0


From 1e8564ed6f24e641963737f9ab2b77832f1bea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:07 +0000
Subject: [PATCH 25/65] fix: pages with unnamed fonts were lost

---
 pdf2docx/text/TextSpan.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 0d13cab..3e37848 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -118,7 +118,11 @@ class TextSpan(Element):
             fontname (str): Font name.
         '''
         # set new font
-        font = fitz.Font(fontname)
+        # NOTE: only built-in fonts are available by name, use Helvetica metrics in other cases, e.g. Arial
+        try:
+            font = fitz.Font(fontname)
+        except Exception:
+            font = fitz.Font('helv')
         self._font = fontname
 
         # compute text length under new font with that size
-- 
2.43.0


From 9c0de3ad8a4fc46dd690713500d6e71b6ab73d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:00 +0000
Subject: [PATCH 26/65] fix: shaded cells without text lost their shading

---
 pdf2docx/table/TablesConstructor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/table/TablesConstructor.py b/pdf2docx/table/TablesConstructor.py
index 92a0652..2fe3a0d 100644
--- a/pdf2docx/table/TablesConstructor.py
+++ b/pdf2docx/table/TablesConstructor.py
@@ -23,7 +23,7 @@ from ..common import constants
 from ..common.Element import Element
 from ..common.Collection import Collection
 from ..page.Blocks import Blocks
-from ..shape.Shape import Stroke
+from ..shape.Shape import Stroke, Fill
 from ..shape.Shapes import Shapes
 from ..text.Lines import Lines
 from .TableStructure import TableStructure
@@ -138,7 +138,8 @@ class TablesConstructor:
         grouped_strokes = remove_overlap(grouped_strokes) 
 
         # all filling shapes
-        fills = self._shapes.table_fillings
+        # NOTE: a shading without any text in it can't be distinguished from highlight in advance
+        fills = Shapes([shape for shape in self._shapes if isinstance(shape, Fill)])
 
         # parse table with each group
         tables = Blocks()
-- 
2.43.0


From 0c2ea60aea491d69ee07b3c93aa8c7225476e211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 27/65] fix: cells of tables merged wrongly when border strokes
 were not sorted

---
 pdf2docx/table/TableStructure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdf2docx/table/TableStructure.py b/pdf2docx/table/TableStructure.py
index 2fa1c2b..6f4fa2e 100644
--- a/pdf2docx/table/TableStructure.py
+++ b/pdf2docx/table/TableStructure.py
@@ -398,6 +398,10 @@ class TableStructure:
         TableStructure._check_outer_strokes(table_bbox, v_strokes, 'left', max_border_width)
         TableStructure._check_outer_strokes(table_bbox, v_strokes, 'right', max_border_width)
 
+        # sort strokes in each group, required by checking merged cells and cell borders
+        for group in h_strokes.values(): group.sort_in_line_order()
+        for group in v_strokes.values(): group.sort_in_reading_order()
+
         return h_strokes, v_strokes
     
 
-- 
2.43.0


From 461b0b2b44d75fcec54091b115aecf266ea258e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:15 +0000
Subject: [PATCH 28/65] fix: a border was missed if its segments join right at
 the center of a table cell

---
 pdf2docx/table/TableStructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/table/TableStructure.py b/pdf2docx/table/TableStructure.py
index 6f4fa2e..3c46f32 100644
--- a/pdf2docx/table/TableStructure.py
+++ b/pdf2docx/table/TableStructure.py
@@ -581,7 +581,7 @@ class TableStructure:
                     ref0, ref1 = border.x0, border.x1
 
                 # 1) intersection found
-                if ref0 < ref < ref1:
+                if ref0 <= ref <= ref1:
                     res.append(1)
                     break
                 
-- 
2.43.0


From 8eabf94fd3ea20bea518dbee0a27a40a7049530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:10 +0000
Subject: [PATCH 29/65] fix: debug_page() left its debug settings in the
 settings of the caller

---
 pdf2docx/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index f917028..16823e2 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -163,7 +163,7 @@ class Converter:
             debug_pdf (str): New pdf file storing layout information. Default to add prefix ``debug_``.
             layout_file (str): New json file storing parsed layout data. Default to ``layout.json``.
         '''
-        kwargs = kwargs if kwargs else {}
+        kwargs = dict(kwargs) if kwargs else {} # keep the argument as it is
 
         # include debug information
         # fitz object in debug mode: plot page layout
-- 
2.43.0


From 6291136449fba7e5581da1850684010796b47835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:09 +0000
Subject: [PATCH 30/65] fix: a page was lost when its layout is drawn and a
 path has no line width, cap or join

---
 pdf2docx/shape/Path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index b114378..292701f 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -360,9 +360,9 @@ class Path:
             dashes=self.raw.get("dashes", None),  # line dashing
             even_odd=self.raw.get("even_odd", False),  # control color of overlaps
             closePath=self.raw.get("closePath", True),  # whether to connect last and first point
-            lineJoin=self.raw.get("lineJoin", 0),  # how line joins should look like
-            lineCap=max(self.raw["lineCap"]) if "lineCap" in self.raw else 0,  # how line ends should look like
-            width=self.raw.get("width", 1),  # line width
+            lineJoin=self.raw.get("lineJoin") or 0,  # how line joins should look like
+            lineCap=max(self.raw.get("lineCap") or (0,)),  # how line ends should look like
+            width=1 if self.raw.get("width") is None else self.raw["width"],  # line width
             stroke_opacity=self.raw.get("opacity", 1),  # same value for both
             fill_opacity=self.raw.get("opacity", 1)  # opacity parameters
             )
\ No newline at end of file
-- 
2.43.0


From ecb7aaaab4561926c49d3f02013a7bed22b76ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:25 +0000
Subject: [PATCH 31/65] fix: a page ending with several tables got a closing
 paragraph for each of them

---
 pdf2docx/page/Blocks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 9e81b65..2c3d77d 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -557,6 +557,7 @@ class Blocks(Collection):
             # otherwise, add a small paragraph
             p = doc.add_paragraph()
             reset_paragraph_format(p, Pt(constants.MIN_LINE_SPACING)) # a small line height
+            break # once only, even though several tables at the end
 
         # Finally, add floating image to last paragraph
         p = doc.add_paragraph() if not doc.paragraphs else doc.paragraphs[-1]
-- 
2.43.0


From ea91a9addb4d1bc08348f9de5fb049671b3ad49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:25 +0000
Subject: [PATCH 32/65] fix: floating images of a page without any other
 content were drawn on the previous page

---
 pdf2docx/page/Blocks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 2c3d77d..ee27a01 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -560,7 +560,9 @@ class Blocks(Collection):
             break # once only, even though several tables at the end
 
         # Finally, add floating image to last paragraph
-        p = doc.add_paragraph() if not doc.paragraphs else doc.paragraphs[-1]
+        # NOTE: without any blocks in this page, the last paragraph belongs to the previous page
+        no_paragraph = self.floating_image_blocks and not self._instances
+        p = doc.add_paragraph() if no_paragraph or not doc.paragraphs else doc.paragraphs[-1]
         for image_block in self.floating_image_blocks:
             image_block.make_docx(p)
 
-- 
2.43.0


From f5d46c8a2680c4b885c6341459a2576bc0b2a971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:15 +0000
Subject: [PATCH 33/65] fix: text read from bottom to top was written in
 reverse order when a line consists of several chunks

---
 pdf2docx/common/Collection.py | 4 ++--
 pdf2docx/text/Lines.py        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/common/Collection.py b/pdf2docx/common/Collection.py
index 5aed9e6..0eec064 100644
--- a/pdf2docx/common/Collection.py
+++ b/pdf2docx/common/Collection.py
@@ -224,7 +224,7 @@ class Collection(BaseCollection, IText):
         if self.is_horizontal_text:
             self._instances.sort(key=lambda e: (e.bbox.y0, e.bbox.x0, e.bbox.x1))
         else:
-            self._instances.sort(key=lambda e: (e.bbox.x0, e.bbox.y1, e.bbox.y0))
+            self._instances.sort(key=lambda e: (e.bbox.x0, -e.bbox.y1, -e.bbox.y0))
         return self
 
 
@@ -235,7 +235,7 @@ class Collection(BaseCollection, IText):
         if self.is_horizontal_text:
             self._instances.sort(key=lambda e: (e.bbox.x0, e.bbox.y0, e.bbox.x1))
         else:
-            self._instances.sort(key=lambda e: (e.bbox.y1, e.bbox.x0, e.bbox.y0))
+            self._instances.sort(key=lambda e: (-e.bbox.y1, e.bbox.x0, -e.bbox.y0))
         return self
 
    
diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 8573b0b..0a36203 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -194,7 +194,7 @@ class Lines(Collection):
         idx = 0 if self.is_horizontal_text else 3
         self._instances = []
         for row in lines_in_rows:
-            row.sort(key=lambda line: line.bbox[idx])
+            row.sort(key=lambda line: line.bbox[idx], reverse=idx==3) # from bottom to top if vertical text
             self._instances.extend(row)
 
 
-- 
2.43.0


From defb41970a76be5965aecb9dea699076ad902306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:15 +0000
Subject: [PATCH 34/65] fix: marks of vertical text, or of a line behind a
 lower one in the same row, were lost

---
 pdf2docx/text/Lines.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 0a36203..9424fa3 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -272,9 +272,8 @@ class Lines(Collection):
             # any intersection in this line?
             intsec = rect.bbox & line.get_expand_bbox(constants.MAJOR_DIST)
             
-            if not intsec.is_valid: 
-                if rect.bbox.y1 < line.bbox.y0: break # lines must be sorted in advance
-                continue
+            # NOTE: no further assumption on positions of following lines, e.g. vertical text, or lines in same row
+            if not intsec.is_valid: continue
 
             # yes, then try to split the spans in this line
             split_spans = []
-- 
2.43.0


From 61bc9b9be22871c53236f4b0d9c85e2dec26c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:00 +0000
Subject: [PATCH 35/65] fix: paragraph with indented first line was shifted to
 the left by that indent

---
 pdf2docx/text/TextBlock.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index e4dcfc4..f02f926 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -294,8 +294,8 @@ class TextBlock(Block):
             pf.alignment = WD_ALIGN_PARAGRAPH.JUSTIFY
 
         # - paragraph indentation
-        # NOTE: first-line-indent should be excluded
-        pf.left_indent  = Pt(self.left_space-self.first_line_space)
+        # NOTE: first-line-indent should be excluded if hanging, i.e. the first line is the most left one
+        pf.left_indent  = Pt(self.left_space-min(self.first_line_space, 0.0))
         pf.right_indent  = Pt(self.right_space)
 
         # - first line indentation
-- 
2.43.0


From 87a337e08762e4d9fb06db48a1e5cd3624ad9dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:00 +0000
Subject: [PATCH 36/65] fix: first line indent of justified paragraph was lost

---
 pdf2docx/text/TextBlock.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index f02f926..9a82f48 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -363,7 +363,9 @@ class TextBlock(Block):
 
         if left_aligned and right_aligned:
             # need further external check if two lines only
-            return TextAlignment.JUSTIFY if len(rows)>=3 else TextAlignment.UNKNOWN
+            if len(rows) < 3: return TextAlignment.UNKNOWN
+            self.first_line_space = rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0]
+            return TextAlignment.JUSTIFY
         elif left_aligned:
             self.first_line_space = rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0]
             return TextAlignment.LEFT
-- 
2.43.0


From 5c7b781ccc86631f7675f7836670d2bdda5b3591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:00 +0000
Subject: [PATCH 37/65] fix: last line not following right or justify alignment
 was moved or other lines stretched

---
 pdf2docx/text/TextBlock.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index 9a82f48..68d5f00 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -361,7 +361,10 @@ class TextBlock(Block):
         right_aligned  = abs(max(X1)-min(X1))<=lines_right_aligned_threshold
         center_aligned = abs(max(X)-min(X))<=lines_center_aligned_threshold # coarse margin for center alignment
 
-        if left_aligned and right_aligned:
+        # the last line may be shorter (justify), but it has to follow the alignment in other cases
+        d_last = (rows[-1][-1].bbox[idx1] - rows[0][-1].bbox[idx1])*f
+
+        if left_aligned and right_aligned and d_last<=lines_right_aligned_threshold:
             # need further external check if two lines only
             if len(rows) < 3: return TextAlignment.UNKNOWN
             self.first_line_space = rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0]
@@ -369,7 +372,7 @@ class TextBlock(Block):
         elif left_aligned:
             self.first_line_space = rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0]
             return TextAlignment.LEFT
-        elif right_aligned:
+        elif right_aligned and abs(d_last)<=lines_right_aligned_threshold:
             return TextAlignment.RIGHT
         elif center_aligned:
             return TextAlignment.CENTER
-- 
2.43.0


From e3642bb47adff2f5fbf0a2e1f8458eaf12d66cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:00 +0000
Subject: [PATCH 38/65] fix: centered paragraph was moved to the middle of page
 or cell

---
 pdf2docx/text/TextBlock.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index 68d5f00..9132f64 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -197,8 +197,11 @@ class TextBlock(Block):
             self.left_space = min(self.left_space_total, self.right_space_total)
             self.right_space = self.right_space_total
         elif self.alignment == TextAlignment.CENTER:
-            self.left_space = 0
-            self.right_space = 0
+            # NOTE: the lines may be centered to each other, but not in the middle of the layout
+            centered = ext_alignment == TextAlignment.CENTER
+            space = min(self.left_space_total, self.right_space_total)
+            self.left_space = 0 if centered else self.left_space_total - space
+            self.right_space = 0 if centered else self.right_space_total - space
         else:
             self.left_space = self.left_space_total
             self.right_space = self.right_space_total
-- 
2.43.0


From 7a233f50e55ea196fa2a98bcd628faada7e006be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:00 +0000
Subject: [PATCH 39/65] fix: first line indent of vertical text had the wrong
 sign

---
 pdf2docx/text/TextBlock.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index 9132f64..32ccf54 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -370,10 +370,10 @@ class TextBlock(Block):
         if left_aligned and right_aligned and d_last<=lines_right_aligned_threshold:
             # need further external check if two lines only
             if len(rows) < 3: return TextAlignment.UNKNOWN
-            self.first_line_space = rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0]
+            self.first_line_space = (rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0])*f
             return TextAlignment.JUSTIFY
         elif left_aligned:
-            self.first_line_space = rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0]
+            self.first_line_space = (rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0])*f
             return TextAlignment.LEFT
         elif right_aligned and abs(d_last)<=lines_right_aligned_threshold:
             return TextAlignment.RIGHT
-- 
2.43.0


From a0866969552ee9d142b098b89df660d9dbda4853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:00 +0000
Subject: [PATCH 40/65] fix: tabs missing in vertical text, or after a line
 behind others in the same row

---
 pdf2docx/text/Lines.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 9424fa3..4fe468a 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -337,13 +337,13 @@ class Lines(Collection):
     def make_docx(self, p):
         '''Create lines in paragraph.'''
         block = self.parent        
-        idx0 = 0 if block.is_horizontal_text else 3
+        idx0, f = (0, 1.0) if block.is_horizontal_text else (3, -1.0)
         idx1 = (idx0+2)%4 # H: x1->2, or V: y0->1
         current_pos = block.left_space
 
         for i, line in enumerate(self._instances):
             # left indentation implemented with tab
-            pos = block.left_space + (line.bbox[idx0]-block.bbox[idx0])
+            pos = block.left_space + (line.bbox[idx0]-block.bbox[idx0])*f
             if pos>block.left_space and block.tab_stops: # sometimes set by first line indentation
                 add_stop(p, Pt(pos), Pt(current_pos))
 
@@ -353,6 +353,6 @@ class Lines(Collection):
             # update stop position            
             if line==self._instances[-1]: break
             if line.in_same_row(self._instances[i+1]):
-                current_pos = pos + abs(line.bbox[idx1]-block.bbox[idx0])
+                current_pos = block.left_space + abs(line.bbox[idx1]-block.bbox[idx0])
             else:
                 current_pos = block.left_space
\ No newline at end of file
-- 
2.43.0


From 7cae72a41c18cfc2dd95c545cfd158f39ea0b73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:00 +0000
Subject: [PATCH 41/65] fix: last word of a line was written without blank to
 the first word of next line

---
 pdf2docx/common/share.py | 13 +++++++++++++
 pdf2docx/text/Line.py    |  6 ++++++
 pdf2docx/text/Lines.py   |  8 +++++++-
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/common/share.py b/pdf2docx/common/share.py
index 559af4b..1799ce2 100644
--- a/pdf2docx/common/share.py
+++ b/pdf2docx/common/share.py
@@ -2,6 +2,7 @@
 
 from enum import Enum
 import random
+import unicodedata
 from collections import deque
 from collections.abc import Iterable
 from fitz.utils import getColorList, getColorInfoList
@@ -102,6 +103,18 @@ def is_number(str_number):
         return True
 
 
+def is_separate_word(text:str, next_text:str):
+    '''Whether a blank is required to separate two texts in succession, e.g. the end of current row 
+    and the start of next row. It isn't when a blank exists already, for a hyphenated word, or 
+    scripts without blanks between words, e.g. Chinese.
+    '''
+    if not text or not next_text: return False
+    c1, c2 = text[-1], next_text[0]
+    if c1.isspace() or c2.isspace(): return False
+    if c1=='\u00ad' or unicodedata.category(c1)=='Pd': return False
+    return not any(unicodedata.east_asian_width(c) in ('W', 'F') for c in (c1, c2))
+
+
 def flatten(items, klass):
     '''Yield items from any nested iterable.'''
     for item in items:
diff --git a/pdf2docx/text/Line.py b/pdf2docx/text/Line.py
index 825a2f9..b30e437 100644
--- a/pdf2docx/text/Line.py
+++ b/pdf2docx/text/Line.py
@@ -59,6 +59,12 @@ class Line(Element):
         return ''.join(spans_text)
 
 
+    @property
+    def raw_text(self):
+        '''Joining span text, blanks at both ends of each span included.'''
+        return ''.join(span.text for span in self.spans)
+
+
     @property
     def image_spans(self):
         '''Get image spans in this Line.'''
diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 4fe468a..2299af4 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -8,7 +8,7 @@ from .Line import Line
 from ..image.ImageSpan import ImageSpan
 from ..common.Collection import Collection
 from ..common.docx import add_stop
-from ..common.share import TextAlignment
+from ..common.share import TextAlignment, is_separate_word
 from ..common import constants
 
 
@@ -352,6 +352,12 @@ class Lines(Collection):
 
             # update stop position            
             if line==self._instances[-1]: break
+
+            # separate words from two rows since no line break between them
+            next_line = self._instances[i+1]
+            if not line.line_break and not line.in_same_row(next_line) and \
+                is_separate_word(line.raw_text, next_line.raw_text): p.add_run(' ')
+
             if line.in_same_row(self._instances[i+1]):
                 current_pos = block.left_space + abs(line.bbox[idx1]-block.bbox[idx0])
             else:
-- 
2.43.0


From 0ead820c5446ceec49c1010ea51c59e8dfebe8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:41 +0000
Subject: [PATCH 42/65] fix: empty layout table shifted contents of a page
 without columns

---
 pdf2docx/table/TablesConstructor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/table/TablesConstructor.py b/pdf2docx/table/TablesConstructor.py
index 2fe3a0d..bf7e6b7 100644
--- a/pdf2docx/table/TablesConstructor.py
+++ b/pdf2docx/table/TablesConstructor.py
@@ -68,9 +68,12 @@ class TablesConstructor:
         X = (x0+x1) / 2.0
         column_elements = list(filter(
                 lambda line: line.bbox[2]<X or line.bbox[0]>X, elements))
-        span_elements = filter(
-                lambda line: line.bbox[2]>=X>=line.bbox[0], elements)
-        
+        span_elements = list(filter(
+                lambda line: line.bbox[2]>=X>=line.bbox[0], elements))
+
+        # no columns if all elements cross the center line
+        if span_elements and not column_elements: return
+
         # check: intersected elements must on the top or bottom side
         u0, v0, u1, v1 = Collection(column_elements).bbox
         if not all(e.bbox[3]<v0 or e.bbox[1]>v1 for e in span_elements): return
-- 
2.43.0


From 2bbb00fd4d8eacde84b4932b7eb2c8b71be69758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:59 +0000
Subject: [PATCH 43/65] fix: first line lower than its row made a single row
 end too high

---
 pdf2docx/text/TextBlock.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index 32ccf54..ef6b453 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -241,7 +241,8 @@ class TextBlock(Block):
         if count > 1:
             line_space = (block_height-first_line_height)/(count-1)
         else:
-            line_space = block_height        
+            # NOTE: the first line may be lower than the row it belongs to
+            line_space = first_line_height = block_height
         self.line_space = line_space
 
         # since the line height setting in docx may affect the original bbox in pdf, 
-- 
2.43.0


From 885cd2abe4a6c4708c4edcbb28b82334f2647a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:25 +0000
Subject: [PATCH 44/65] fix: negative line height of text overlapping the
 content above it

---
 pdf2docx/page/Blocks.py    | 3 ++-
 pdf2docx/text/TextBlock.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index ee27a01..4f26d10 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -408,7 +408,8 @@ class Blocks(Collection):
 
             # update reference block        
             ref_block = block
-            ref_pos = ref_block.bbox[idx+2] + dw # assume same bottom border with top one
+            # NOTE: can't go back if current block is overlapped with previous ones
+            ref_pos = max(ref_pos, ref_block.bbox[idx+2] + dw) # assume same bottom border with top one
 
         # NOTE: when a table is at the end of a page, a dummy paragraph with a small line spacing 
         # is added after this table, to avoid unexpected page break. Accordingly, this extra spacing 
diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index ef6b453..3196349 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -252,8 +252,10 @@ class TextBlock(Block):
 
         # if before spacing is negative, set to zero and adjust calculated line spacing accordingly
         if self.before_space < 0:
-            self.line_space += self.before_space / count
+            line_space += self.before_space / count
             self.before_space = 0.0
+            # NOTE: no space left in case it overlaps the previous block, so keep line spacing readable
+            if line_space >= constants.MIN_LINE_SPACING: self.line_space = line_space
 
 
     def make_docx(self, p):
-- 
2.43.0


From 08c1e5ec42a5c0b2d7415c35af42e1780e38a647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:47 +0000
Subject: [PATCH 45/65] fix: layout table covered text right above or below it

---
 pdf2docx/table/TablesConstructor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/table/TablesConstructor.py b/pdf2docx/table/TablesConstructor.py
index bf7e6b7..3e9db68 100644
--- a/pdf2docx/table/TablesConstructor.py
+++ b/pdf2docx/table/TablesConstructor.py
@@ -80,7 +80,12 @@ class TablesConstructor:
 
         # create dummy strokes for table parsing        
         m0, m1 = (x0+u0)/2.0, (x1+u1)/2.0
-        n0, n1 = v0-constants.MAJOR_DIST, v1+constants.MAJOR_DIST        
+        n0, n1 = v0-constants.MAJOR_DIST, v1+constants.MAJOR_DIST
+        # NOTE: the table can't cover elements above and below it
+        for e in span_elements:
+            if e.bbox[3]<v0: n0 = max(n0, e.bbox[3])
+            else: n1 = min(n1, e.bbox[1])
+
         strokes = [
             Stroke().update_bbox((m0, n0, m1, n0)), # top
             Stroke().update_bbox((m0, n1, m1, n1)), # bottom
-- 
2.43.0


From 2ede0838309c366d1fd4d348867f765f14947583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:26 +0000
Subject: [PATCH 46/65] fix: links of a page were those of its first analysis
 when parsed again with other settings

---
 pdf2docx/shape/Shapes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/shape/Shapes.py b/pdf2docx/shape/Shapes.py
index fd5aefa..4dbf045 100644
--- a/pdf2docx/shape/Shapes.py
+++ b/pdf2docx/shape/Shapes.py
@@ -68,9 +68,11 @@ class Shapes(Collection):
         return Shapes(instances)
 
 
-    @lazyproperty
+    @property
     def hyperlinks(self):
-        ''' Hyperlink Shapes.'''
+        ''' Hyperlink Shapes.
+            Not cached since instances change, e.g. when the page is parsed again.
+        '''
         instances = list(filter(
             lambda shape: isinstance(shape, Hyperlink), self._instances))
         return Shapes(instances)
-- 
2.43.0


From 34688a69cc9b1faab22ce69f27926c3d0e58fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 47/65] fix: pictures drawn stretched were written with the
 height of their pixel ratio

---
 pdf2docx/common/docx.py      | 10 ++++++----
 pdf2docx/image/Image.py      |  3 ++-
 pdf2docx/image/ImageBlock.py |  2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pdf2docx/common/docx.py b/pdf2docx/common/docx.py
index eeb4949..207e910 100644
--- a/pdf2docx/common/docx.py
+++ b/pdf2docx/common/docx.py
@@ -215,17 +215,18 @@ def add_hyperlink(paragraph, url, text):
 # ---------------------------------------------------------
 # image properties
 # ---------------------------------------------------------
-def add_image(p, image_path_or_stream, width):
+def add_image(p, image_path_or_stream, width, height=None):
     ''' Add image to paragraph.
     
     Args:
         p (Paragraph): ``python-docx`` paragraph instance.
         image_path_or_stream (str, bytes): Image path or stream.
         width (float): Image width in Pt.
+        height (float, optional): Image height in Pt. Defaults to None, i.e. scaled with the width.
     '''
     docx_span = p.add_run()
     try:
-        docx_span.add_picture(image_path_or_stream, width=Pt(width))
+        docx_span.add_picture(image_path_or_stream, width=Pt(width), height=None if height is None else Pt(height))
     except UnrecognizedImageError:
         print('Unrecognized Image.')
         return
@@ -299,7 +300,7 @@ class _CT_Anchor(BaseOxmlElement):
 register_element_cls('wp:anchor', _CT_Anchor)
 
 
-def add_float_image(p, image_path_or_stream, width, pos_x=None, pos_y=None):
+def add_float_image(p, image_path_or_stream, width, pos_x=None, pos_y=None, height=None):
     '''Add float image behind text.
     
     Args:
@@ -308,11 +309,12 @@ def add_float_image(p, image_path_or_stream, width, pos_x=None, pos_y=None):
         width (float): Displaying width of picture, in unit Pt.
         pos_x (float): X-position (English Metric Units) to the top-left point of page valid region
         pos_y (float): Y-position (English Metric Units) to the top-left point of page valid region
+        height (float, optional): Displaying height of picture, in unit Pt. Defaults to None, i.e. scaled with the width.
     '''
     run = p.add_run()
     # parameters for picture, e.g. id, name
     rId, image = run.part.get_or_add_image(image_path_or_stream)
-    cx, cy = image.scaled_dimensions(Pt(width), None)
+    cx, cy = image.scaled_dimensions(Pt(width), None if height is None else Pt(height))
     shape_id, filename = run.part.next_id, image.filename
     anchor = _CT_Anchor.new_pic_anchor(shape_id, rId, filename, cx, cy, Pt(pos_x), Pt(pos_y))
     run._r.add_drawing(anchor)
diff --git a/pdf2docx/image/Image.py b/pdf2docx/image/Image.py
index 676d24d..a211400 100644
--- a/pdf2docx/image/Image.py
+++ b/pdf2docx/image/Image.py
@@ -94,4 +94,5 @@ class Image(Element):
     def make_docx(self, paragraph):
         '''Add image span to a docx paragraph.'''
         # add image
-        docx.add_image(paragraph, BytesIO(self.image), self.bbox.x1-self.bbox.x0)
\ No newline at end of file
+        x0, y0, x1, y1 = self.bbox
+        docx.add_image(paragraph, BytesIO(self.image), x1-x0, height=y1-y0)
\ No newline at end of file
diff --git a/pdf2docx/image/ImageBlock.py b/pdf2docx/image/ImageBlock.py
index 16c8874..17c6668 100644
--- a/pdf2docx/image/ImageBlock.py
+++ b/pdf2docx/image/ImageBlock.py
@@ -92,7 +92,7 @@ class ImageBlock(Image, Block): # to get Image.plot() in first priority
         '''
         if self.is_float_image_block():
             x0, y0, x1, y1 = self.bbox
-            add_float_image(p, BytesIO(self.image), width=x1-x0, pos_x=x0, pos_y=y0)
+            add_float_image(p, BytesIO(self.image), width=x1-x0, pos_x=x0, pos_y=y0, height=y1-y0)
         else:
             super().make_docx(p)
         return p
\ No newline at end of file
-- 
2.43.0


From 099b1790fee507ad54e8a5f04a2c4c5e32ed3bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 48/65] fix: half transparent parts of pictures became opaque

---
 pdf2docx/image/ImagesExtractor.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 6312ef7..bcec3f0 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -246,10 +246,7 @@ class ImagesExtractor:
             pix = fitz.Pixmap(pix, 1)  
             
             # create pixmap of the /SMask entry
-            ba = bytearray(fitz.Pixmap(doc, s).samples)
-            for i in range(len(ba)):
-                if ba[i] > 0: ba[i] = 255
-            pix.setAlpha(ba)
+            pix.setAlpha(bytearray(fitz.Pixmap(doc, s).samples))
 
         # we may need to adjust something for CMYK pixmaps here -> 
         # recreate pixmap in RGB color space if necessary
-- 
2.43.0


From a14f82fae1f0fb7de252ea61547e35959f9f19b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 49/65] fix: lines of zero width, i.e. hairlines, were dropped
 with their tables

---
 pdf2docx/common/constants.py |  1 +
 pdf2docx/shape/Path.py       | 13 ++++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/common/constants.py b/pdf2docx/common/constants.py
index 765f045..0470852 100644
--- a/pdf2docx/common/constants.py
+++ b/pdf2docx/common/constants.py
@@ -24,6 +24,7 @@ FACTOR_FEW = 0.01
 # docx
 # -------------------------------------
 HIDDEN_W_BORDER = 0.0   # do not show border
+MIN_LINE_WIDTH = 0.25   # thinnest line available in MS word
 MIN_LINE_SPACING = 0.7  # minimum line spacing available in MS word
 
 # -------------------------------------
diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index 292701f..d781a49 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -213,8 +213,7 @@ class Path:
         # path segments
         self.items = [] # type: list[Segments]
         self.bbox = fitz.Rect()
-        # NOTE: no width for a fill-only path
-        close_path, w = raw['closePath'], raw['width'] or 0.0
+        close_path, w = raw['closePath'], self.width
         for segments in self._group_segments(raw['items']):
             S = Segments(segments, close_path)
             self.items.append(S)
@@ -270,6 +269,14 @@ class Path:
         return segments_list
                 
 
+    @property
+    def width(self):
+        '''Stroke width. NOTE: no width for a fill-only path; and zero width denotes the thinnest
+        line rather than no line.'''
+        if self.raw.get('color', None) is None: return 0.0
+        return max(self.raw.get('width', None) or 0.0, constants.MIN_LINE_WIDTH)
+
+
     @property
     def is_stroke(self): self.raw.get('color', None) is not None
 
@@ -292,7 +299,7 @@ class Path:
         """        
         stroke_color = self.raw.get('color', None)
         fill_color = self.raw.get('fill', None)
-        width = self.raw.get('width', 0.0)
+        width = self.width
 
         iso_shapes = []
 
-- 
2.43.0


From 246edf36c99ee05231fea6d98350bb4ecc7a7b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:57 +0000
Subject: [PATCH 50/65] fix: a picture with a mask of other size lost its page
 or was masked wrongly

---
 pdf2docx/image/ImagesExtractor.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index bcec3f0..0fa4272 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -242,11 +242,17 @@ class ImagesExtractor:
 
         # reconstruct the alpha channel with the smask if exists
         if s > 0:        
+            # create pixmap of the /SMask entry
+            mask = fitz.Pixmap(doc, s)
+
+            # NOTE: image and mask may have different sizes -> scale to the larger one
+            w, h = max(pix.width, mask.width), max(pix.height, mask.height)
+            if (pix.width, pix.height) != (w, h): pix = fitz.Pixmap(pix, w, h, None)
+            if (mask.width, mask.height) != (w, h): mask = fitz.Pixmap(mask, w, h, None)
+
             # copy of base image, with an alpha channel added
             pix = fitz.Pixmap(pix, 1)  
-            
-            # create pixmap of the /SMask entry
-            pix.setAlpha(bytearray(fitz.Pixmap(doc, s).samples))
+            pix.setAlpha(bytearray(mask.samples))
 
         # we may need to adjust something for CMYK pixmaps here -> 
         # recreate pixmap in RGB color space if necessary
-- 
2.43.0


From c516cfefe5a0c86053b8a1f96eb4f2d8f78515a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:57 +0000
Subject: [PATCH 51/65] fix: pictures in form XObjects were mixed up with
 pictures of same name, or lost on rotated pages

---
 pdf2docx/image/ImagesExtractor.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 0fa4272..08a4b30 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -39,13 +39,23 @@ class ImagesExtractor:
         # check each image item:
         # (xref, smask, width, height, bpc, colorspace, ...)
         images = []
-        for item in page.getImageList(full=True):
+        items = page.getImageList(full=True)
+        names = [item[7] for item in items]
+        for item in items:
             # should always wrap getImageBbox in a try-except clause, per
             # https://github.com/pymupdf/PyMuPDF/issues/487
             try:
+                # NOTE: name entry may be same as that of an image in other form XObject -> locate the 
+                # image by its content, and the location is relative to un-rotated page in this case.
+                if item[-1] or names.count(item[7])>1:
+                    rects = page.get_image_rects(item[0])
+                else:
+                    rects = []
+                
                 item = list(item)
                 item[-1] = 0
-                bbox = page.getImageBbox(item) # item[7]: name entry of such an item
+                bbox = rects[0]*page.rotationMatrix if rects else \
+                        page.getImageBbox(item) # item[7]: name entry of such an item
             except ValueError:
                 continue
 
-- 
2.43.0


From 7c04ed2d64ba3260a84507cb400696565fc5daa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:33 +0000
Subject: [PATCH 52/65] fix: of pictures at the same location all but one were
 lost

---
 pdf2docx/page/RawPage.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pdf2docx/page/RawPage.py b/pdf2docx/page/RawPage.py
index 4c0ba69..580aae2 100644
--- a/pdf2docx/page/RawPage.py
+++ b/pdf2docx/page/RawPage.py
@@ -112,16 +112,22 @@ class RawPage:
         # (2) c: an image in page may not exist in raw dict -> so, add it
         # (3) d: an image in raw dict may not exist in page -> so, delete it
         for image in recovered_images:
-            for k, image_blocks in image_blocks_group.items():
-                if not same_images(image, image_blocks): continue
-                for image_block in image_blocks:
-                    image_block['type'] = 1 # add it back
-                    image_block['image'] = image['image']
-                break
-
+            groups = [image_blocks for image_blocks in image_blocks_group.values() \
+                        if same_images(image, image_blocks)]
+            
             # an image outside the page is not counted in page.getText(), so let's add it here
-            else:
+            if not groups:
                 raw['blocks'].append(image)
+                continue
+
+            # NOTE: different images may have same location -> prefer image in same size, not recovered yet
+            groups.sort(key=lambda image_blocks: (
+                image_blocks[0]['type']==1,
+                (image_blocks[0]['width'], image_blocks[0]['height'])!=(image['width'], image['height'])))
+            if groups[0][0]['type']==1: continue
+            for image_block in groups[0]:
+                image_block['type'] = 1 # add it back
+                image_block['image'] = image['image']
 
 
     @debug_plot('Source Paths')
-- 
2.43.0


From 28955e1fb05b28a5d67f3399fd35f48524099eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:06 +0000
Subject: [PATCH 53/65] fix: hide text of form xobjects when clipping page,
 e.g. it was shown in the picture of a vector graphic, and as text again

---
 pdf2docx/image/ImagesExtractor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 08a4b30..5113549 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -191,7 +191,10 @@ class ImagesExtractor:
         # - https://github.com/pymupdf/PyMuPDF/issues/257
         # - https://www.adobe.com/content/dam/acom/en/devnet/pdf/pdfs/pdf_reference_archives/PDFReference.pdf
         doc = page.parent
-        source = {xref: doc.xrefStream(xref) for xref in page.get_contents()}
+
+        # NOTE: text exists in form xobjects as well
+        xrefs = page.get_contents() + [item[0] for item in page.get_xobjects()]
+        source = {xref: doc.xrefStream(xref) for xref in xrefs}
         for xref in source:
             stream = source[xref].replace(b'BT', b'BT 3 Tr') \
                                              .replace(b'Tm', b'Tm 3 Tr') \
-- 
2.43.0


From 62e6dd47de4f1756851949b3c0a27cf0196c8dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:06 +0000
Subject: [PATCH 54/65] fix: hide text with rendering mode set explicitly when
 clipping page

---
 pdf2docx/image/ImagesExtractor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 5113549..033be1b 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -10,6 +10,7 @@ Both raster images and vector graphics are considered:
   ``re``, ``m``, ``l`` and ``c``. They're detected by finding the contours with ``opencv``.
 '''
 
+import re
 import fitz
 from ..common.share import BlockType
 from ..common.Collection import Collection
@@ -196,7 +197,9 @@ class ImagesExtractor:
         xrefs = page.get_contents() + [item[0] for item in page.get_xobjects()]
         source = {xref: doc.xrefStream(xref) for xref in xrefs}
         for xref in source:
-            stream = source[xref].replace(b'BT', b'BT 3 Tr') \
+            # NOTE: rendering mode may be set explicitly, i.e. fill, stroke, or both
+            stream = re.sub(rb'\b[012]\s+Tr\b', b'3 Tr', source[xref])
+            stream = stream.replace(b'BT', b'BT 3 Tr') \
                                              .replace(b'Tm', b'Tm 3 Tr') \
                                              .replace(b'Td', b'Td 3 Tr')
             doc.updateStream(xref, stream)
-- 
2.43.0


From dd21bddeb5f142188c63bea082fd8c638d51e3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:43 +0000
Subject: [PATCH 55/65] fix: four-sided drawings were lost, e.g. a diamond

---
 pdf2docx/shape/Path.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index d781a49..80cf242 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -262,6 +262,17 @@ class Path:
                     segments = []
                 # add this segment
                 segments_list.append([item])
+
+            # quad as a separate segments group as well, composed of four lines
+            elif item[0] == 'qu':
+                # close current segments
+                if segments:
+                    segments_list.append(segments)
+                    segments = []
+                # add its edges
+                quad = item[1]
+                points = [quad.ul, quad.ll, quad.lr, quad.ur, quad.ul]
+                segments_list.append([('l', points[i], points[i+1]) for i in range(4)])
         
         # add last segments if exists
         if segments: segments_list.append(segments)
@@ -357,6 +368,8 @@ class Path:
                 canvas.drawLine(item[1], item[2])
             elif item[0] == "re":  # rectangle
                 canvas.drawRect(item[1])
+            elif item[0] == "qu":  # quad
+                canvas.drawQuad(item[1])
             elif item[0] == "c":  # curve
                 canvas.drawBezier(item[1], item[2], item[3], item[4])
 
-- 
2.43.0


From 4b8b441072cdda32353f1c039f6ed4a1686fcfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:35 +0000
Subject: [PATCH 56/65] fix: horizontal and vertical lines connected to each
 other became a picture, or were lost

---
 pdf2docx/shape/Path.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index 80cf242..41cd71f 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -133,6 +133,16 @@ class Segments:
         return bbox_area==0 or self.area/bbox_area>=constants.FACTOR_MOST
 
 
+    @property
+    def is_iso_lines(self):
+        '''Whether composed of horizontal and vertical lines only, no matter the enclosed area.'''
+        for segment in self._instances:
+            if not isinstance(segment, L): return False
+            (x0, y0), (x1, y1) = segment.points
+            if round(abs(x1-x0), 2)>0 and round(abs(y1-y0), 2)>0: return False
+        return True
+
+
     def _cal_bbox_and_area(self):
         '''Calculate bbox and area of Segments. 
         
@@ -296,9 +306,15 @@ class Path:
 
     @property
     def is_iso_oriented(self):
-        '''It is iso-oriented when all contained segments are iso-oriented.'''
+        '''It is iso-oriented when all contained segments are iso-oriented.
+        
+        .. note::
+            Area doesn't matter if nothing is filled, e.g. a corner composed of connected lines.
+        '''
+        filled = not self.raw.get('fill', None) is None
         for segments in self.items:
-            if not segments.is_iso_oriented: return False
+            if segments.is_iso_oriented: continue
+            if filled or not segments.is_iso_lines: return False
         return True
 
 
-- 
2.43.0


From 84ed9c988b3dee930bd440f48892b080f19fed0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:35 +0000
Subject: [PATCH 57/65] fix: thick border of a rectangle became a picture if
 there is any drawing with curves

---
 pdf2docx/shape/Paths.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/shape/Paths.py b/pdf2docx/shape/Paths.py
index 3d62402..bc4d440 100644
--- a/pdf2docx/shape/Paths.py
+++ b/pdf2docx/shape/Paths.py
@@ -109,7 +109,10 @@ class Paths(Collection):
                 exist_svg = True
             else:
                 iso_paths.extend(paths._to_iso_paths())
-                iso_areas.extend([path.bbox for path in paths])
+                # NOTE: stroke width is not included in bbox of rectangles
+                for path in paths:
+                    w = path.width/2.0
+                    iso_areas.append(path.bbox + (-w, -w, w, w))
 
         return iso_paths, iso_areas, exist_svg
 
-- 
2.43.0


From 32885e765ed2e77219b7583037e06a763608098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:40 +0000
Subject: [PATCH 58/65] fix: cells narrower or lower than 5 pt had no borders
 at their short sides

---
 pdf2docx/table/TableStructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/table/TableStructure.py b/pdf2docx/table/TableStructure.py
index 3c46f32..f8cb1d1 100644
--- a/pdf2docx/table/TableStructure.py
+++ b/pdf2docx/table/TableStructure.py
@@ -110,8 +110,8 @@ class CellStructure:
             if t0 >= x1: break
             # intersection length
             dl = min(x1, t1) - max(x0, t0)
-            # NOTE to ignore small intersection on end point
-            if dl < constants.MAJOR_DIST: continue 
+            # NOTE to ignore small intersection on end point, but not the border of a narrow cell
+            if dl < min(constants.MAJOR_DIST, (x1-x0)/2.0): continue 
             L += dl
             border_strokes.append(stroke)
         
-- 
2.43.0


From f19d1e7c60ac07d2274594ffc62407b24de41a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:55 +0000
Subject: [PATCH 59/65] fix: a paragraph does not gather lines from both sides
 of a table

A row taken out of a text block as a stream table left the rows above and
below it in one paragraph, which was put before the table as a whole.
---
 pdf2docx/page/Blocks.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 4f26d10..358f796 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -484,12 +484,21 @@ class Blocks(Collection):
             else:
                 blocks.append(block)
         
-        # regroup lines
+        # regroup lines, but never put lines above and below another block, e.g. a table, together
+        others = list(blocks)
+        def separated(above, below):
+            y0, y1 = (above.bbox.y0+above.bbox.y1)/2.0, (below.bbox.y0+below.bbox.y1)/2.0
+            return any(block.bbox.y0>=y0 and block.bbox.y1<=y1 for block in others)
+
         for group_lines in lines.split_back():
-            text_block = TextBlock()
-            text_block.lines.reset(group_lines)
-            blocks.append(text_block)
-       
+            start = 0
+            for i in range(1, len(group_lines)+1):
+                if i<len(group_lines) and not separated(group_lines[i-1], group_lines[i]): continue
+                text_block = TextBlock()
+                text_block.lines.reset(group_lines[start:i])
+                blocks.append(text_block)
+                start = i
+
         self.reset(blocks).sort_in_reading_order()
 
 
-- 
2.43.0


From dcc17de0fc6e5b88a51caa9b572945bacc5a11a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:12 +0000
Subject: [PATCH 60/65] fix: a picture without colours reaching over the page
 edge was stretched

Only the part inside the page is clipped, so that is the area it takes.
---
 pdf2docx/image/ImagesExtractor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 033be1b..9891df1 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -71,6 +71,7 @@ class ImagesExtractor:
             # So, just to clip page pixmap according to the right bbox
             # https://github.com/pymupdf/PyMuPDF/issues/677
             if not pix.colorspace:
+                bbox = bbox & page.rect # only the part inside the page
                 pix = cls._clip_page(page, bbox, zoom=clip_image_res_ratio)
 
             # NOTE: bbox is in real page CS, while raw dict should be relative to un-rotated page
-- 
2.43.0


From 8d292d980eaf1e476935a01600e233375b21bf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:19 +0000
Subject: [PATCH 61/65] fix: drawings in forms named like a text operator were
 lost

BT, Tm and Td were replaced within resource names, too, when hiding text.
---
 pdf2docx/image/ImagesExtractor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 9891df1..b10da04 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -200,9 +200,8 @@ class ImagesExtractor:
         for xref in source:
             # NOTE: rendering mode may be set explicitly, i.e. fill, stroke, or both
             stream = re.sub(rb'\b[012]\s+Tr\b', b'3 Tr', source[xref])
-            stream = stream.replace(b'BT', b'BT 3 Tr') \
-                                             .replace(b'Tm', b'Tm 3 Tr') \
-                                             .replace(b'Td', b'Td 3 Tr')
+            # NOTE: operators only, rather than part of a resource name, e.g. /Tm0
+            stream = re.sub(rb'(?<![^\s)\]>])(BT|Tm|Td)(?![^\s(\[</%])', rb'\1 3 Tr', stream)
             doc.updateStream(xref, stream)
         return source
 
-- 
2.43.0


From 1c2686013ca6f632d9ca4bc1c3d392cd9f5ffc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:36 +0000
Subject: [PATCH 62/65] fix: pictures in spot, Lab or calibrated colours broke
 their page

The name of a colour space tells the count of components only; PNG does not support these.
---
 pdf2docx/image/ImagesExtractor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index b10da04..2b13a00 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -273,7 +273,9 @@ class ImagesExtractor:
         # we may need to adjust something for CMYK pixmaps here -> 
         # recreate pixmap in RGB color space if necessary
         # NOTE: pix.colorspace may be None for images with alpha channel values only
-        if pix.colorspace and not pix.colorspace.name in (fitz.csGRAY.name, fitz.csRGB.name):
+        # NOTE: name is based on count of components only, e.g. DeviceGray for Separation, DeviceRGB for Lab
+        if pix.colorspace and not (pix.colorspace.name in (fitz.csGRAY.name, fitz.csRGB.name) and \
+            item[5] in ('DeviceGray', 'DeviceRGB', 'ICCBased')):
             pix = fitz.Pixmap(fitz.csRGB, pix)
 
         return pix
\ No newline at end of file
-- 
2.43.0


From 142962204693875f730ae184657d9ef6547f522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:26 +0000
Subject: [PATCH 63/65] fix: text in a table was doubled if the corner of
 another table overlaps it

A block within one table went there as a whole, even after some lines of it were added to a preceding table.
---
 pdf2docx/page/Blocks.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 358f796..54c105a 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -588,18 +588,19 @@ class Blocks(Collection):
         # lines in block for further check if necessary
         lines = block.lines if block.is_text_image_block() else Lines()
 
+        # fully contained in one table, though bbox of another table may overlap it
+        for table, blocks_in_table in zip(tables, blocks_in_tables):
+            if table.bbox.contains(block.bbox):
+                blocks_in_table.append(block)
+                return
+
         # collect blocks contained in table region
         # NOTE: there is a probability that only a part of a text block is contained in table region, 
         # while the rest is in normal block region.
         for table, blocks_in_table in zip(tables, blocks_in_tables):
 
-            # fully contained in one table
-            if table.bbox.contains(block.bbox):
-                blocks_in_table.append(block)
-                break
-            
             # not possible in current table, then check next table
-            elif not table.bbox.intersects(block.bbox): continue
+            if not table.bbox.intersects(block.bbox): continue
             
             # deep into line level for text block
             elif block.is_text_image_block():
-- 
2.43.0


From 0e1a11b7ade22d61a490dae3ae5572fcd49c80fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:19 +0000
Subject: [PATCH 64/65] fix: pictures of the same contents but different
 transparency are told apart by location

---
 pdf2docx/page/RawPage.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/page/RawPage.py b/pdf2docx/page/RawPage.py
index 580aae2..9b48308 100644
--- a/pdf2docx/page/RawPage.py
+++ b/pdf2docx/page/RawPage.py
@@ -111,6 +111,7 @@ class RawPage:
         # (1) a -> a1, a2: an image in page maps to multi-instances in raw dict
         # (2) c: an image in page may not exist in raw dict -> so, add it
         # (3) d: an image in raw dict may not exist in page -> so, delete it
+        located = set() # image blocks recovered at exactly their locations
         for image in recovered_images:
             groups = [image_blocks for image_blocks in image_blocks_group.values() \
                         if same_images(image, image_blocks)]
@@ -124,11 +125,20 @@ class RawPage:
             groups.sort(key=lambda image_blocks: (
                 image_blocks[0]['type']==1,
                 (image_blocks[0]['width'], image_blocks[0]['height'])!=(image['width'], image['height'])))
-            if groups[0][0]['type']==1: continue
-            for image_block in groups[0]:
+            image_blocks = groups[0]
+
+            # NOTE: different images may have same contents, e.g. except the transparency, and are grouped
+            # together in this case -> the location tells which one it is
+            if image_blocks[0]['type']==1:
+                image_blocks = [block for image_blocks in groups for block in image_blocks \
+                            if same_images(image, [block]) and id(block) not in located][0:1]
+
+            for image_block in image_blocks:
                 image_block['type'] = 1 # add it back
                 image_block['image'] = image['image']
 
+            located.update([id(block) for block in image_blocks if same_images(image, [block])][0:1])
+
 
     @debug_plot('Source Paths')
     def _preprocess_shapes(self, raw):
-- 
2.43.0


From 15012a77f817e2800f3a9a6a22e3431c2199cc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:40 +0000
Subject: [PATCH 65/65] fix: pictures in hidden layers are not part of the page

---
 pdf2docx/image/ImagesExtractor.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 2b13a00..cae6cd8 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -42,6 +42,7 @@ class ImagesExtractor:
         images = []
         items = page.getImageList(full=True)
         names = [item[7] for item in items]
+        displayed = cls._displayed_areas(page)
         for item in items:
             # should always wrap getImageBbox in a try-except clause, per
             # https://github.com/pymupdf/PyMuPDF/issues/487
@@ -63,6 +64,10 @@ class ImagesExtractor:
             # ignore images outside page
             if not bbox.intersects(page.rect): continue
 
+            # ignore images not displayed, e.g. in a hidden layer
+            # NOTE: an image without colorspace might be painted as a pattern rather than an image
+            if item[5] and not cls._is_displayed(bbox, displayed): continue
+
             # recover image
             pix = cls._recover_pixmap(doc, item)
 
@@ -80,6 +85,22 @@ class ImagesExtractor:
         return images
     
 
+    @staticmethod
+    def _displayed_areas(page:fitz.Page):
+        '''Areas of all images displayed in page (in real page CS), or None if not available in current
+        version of ``PyMuPDF``.'''
+        if not hasattr(page, 'get_bboxlog'): return None
+        return [fitz.Rect(rect)*page.rotationMatrix for kind, rect in page.get_bboxlog() if 'im' in kind]
+
+
+    @staticmethod
+    def _is_displayed(bbox:fitz.Rect, areas:list):
+        '''Whether any displayed image is located in bbox.'''
+        if areas is None: return True
+        return any(max(abs(rect.x0-bbox.x0), abs(rect.y0-bbox.y0), \
+                        abs(rect.x1-bbox.x1), abs(rect.y1-bbox.y1))<1.0 for rect in areas)
+
+
     @classmethod
     def extract_vector_graphics(cls, page:fitz.Page, exclude_areas:list, clip_image_res_ratio:float=3.0):
         """Detect and extract vector graphics by clipping associated page area.
-- 
2.43.0

