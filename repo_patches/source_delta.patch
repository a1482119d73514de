From 54516dfd0de5f2d614318e02946cfefaf32bfcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:31 +0000
Subject: [PATCH 01/36] fix: use the ELF object passed to memorymap.get()

---
 esp_idf_size/memorymap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index f508279..a18b614 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -195,7 +195,7 @@ def get(
         'memory_types': {},
     }
 
-    proj_desc = map_fn = elf = target = None
+    proj_desc = map_fn = target = None
 
     map_fn = os.path.abspath(input_fn)
 
-- 
2.43.0


From 4a85da59415d7dad217b8cd79f9c23d1ea64feda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:32 +0000
Subject: [PATCH 02/36] fix: ignore the flash size of the reference project in
 --diff

---
 esp_idf_size/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/main.py b/esp_idf_size/main.py
index 5d27fb9..820b780 100644
--- a/esp_idf_size/main.py
+++ b/esp_idf_size/main.py
@@ -127,7 +127,7 @@ def _run(args: Dict[str, Any]) -> None:
             if not args['show_unused']:
                 memorymap.remove_unused(memmap_ref)
             if not args['use_flash_size']:
-                memorymap.ignore_flash_size(memmap)
+                memorymap.ignore_flash_size(memmap_ref)
             memmap = memorymap.diff(memmap, memmap_ref)
             if memmap['target'] != memmap['target_diff']:
                 log.warn(
-- 
2.43.0


From 9fed36dd74c7dbb702f21f9ff7f862feaffb7b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:32 +0000
Subject: [PATCH 03/36] fix: make the order of archive dependencies
 deterministic

---
 esp_idf_size/deps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/deps.py b/esp_idf_size/deps.py
index 0e22228..95b16e2 100644
--- a/esp_idf_size/deps.py
+++ b/esp_idf_size/deps.py
@@ -29,7 +29,7 @@ def get_archives_deps(crt: Dict[str, Any], archives_sizes: Dict[str, Any]) -> Di
 
     for sym, refs in crt.items():
         def_archive = refs[0][0]
-        ref_archives = {ref[0] for ref in refs[1:]}
+        ref_archives = dict.fromkeys(ref[0] for ref in refs[1:])
 
         for ref_archive in ref_archives:
             if ref_archive not in archives:
@@ -72,7 +72,7 @@ def get_archives_revdeps(crt: Dict[str, Any], archives_sizes: Dict[str, Any]) ->
 
     for sym, refs in crt.items():
         def_archive = refs[0][0]
-        ref_archives = {ref[0] for ref in refs[1:]}
+        ref_archives = dict.fromkeys(ref[0] for ref in refs[1:])
 
         if def_archive not in archives:
             archives[def_archive] = {
-- 
2.43.0


From 7fced0bbd3d2e70ebc863e9ad03ff450b28f8814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:32 +0000
Subject: [PATCH 04/36] fix: account the whole fill of a dropped input section

---
 esp_idf_size/mapfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 3596c36..955363a 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -210,7 +210,7 @@ class MapFile:
                 # so it can be accounted here.
                 for s in reversed(output_section['input_sections']):
                     if s['size']:
-                        s['fill'] += size
+                        s['fill'] += input_section['fill']
                         break
                 input_section['fill'] = 0
             output_section['input_sections'].append(input_section)
-- 
2.43.0


From 0d63c9b543d926612e6cb8e88c14dce084033b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:33 +0000
Subject: [PATCH 05/36] fix: reject malformed cross reference table entries
 with a MapFileException

---
 esp_idf_size/mapfile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 955363a..56d2759 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -436,7 +436,10 @@ class MapFile:
             if not line.startswith((' ', '\t')):
                 split = line.split(maxsplit=1)
                 if len(split) != 2:
-                    log.err(f'unexpected format of cross reference table entry "{line}"')
+                    raise MapFileException(
+                        f'unexpected format of cross reference table entry "{line}" at line {ln + 1} '
+                        f'in "Cross Reference Table" section in "{self.fn}" map file'
+                    )
 
                 symbol = split[0]
                 definition = split[1]
-- 
2.43.0


From e87fbf792134bde1a6428e4ce1e293dde5a6e208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:33 +0000
Subject: [PATCH 06/36] fix: name the map file if the linker script section is
 missing

---
 esp_idf_size/mapfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 56d2759..8f109df 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -373,7 +373,7 @@ class MapFile:
                     )
 
         if not found:
-            raise MapFileException('cannot parse "Linker script and memory map" section in "{self.fn}" map file')
+            raise MapFileException(f'cannot parse "Linker script and memory map" section in "{self.fn}" map file')
 
         log.debug('linker map output sections', output_sections)
 
-- 
2.43.0


From bbb40a51a1f748fcf5f66001ae9331138aebcebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:33 +0000
Subject: [PATCH 07/36] fix: take the SLEB128 sign bit from the last byte of
 the number

---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index b20dd3c..a97fde1 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -2126,7 +2126,7 @@ class Elf:
         # SLEB128 is stored in two's complement, use ULEB128 and
         # sign extend it if necessary.
         value, offset_new = self.get_uleb128(data, offset)
-        msb = data[offset - 1]
+        msb = data[offset_new - 1]
         if not msb & 0x40:
             # SLEB128 sign bit is 7'th bit in MSB. If not set
             # it's not negative number.
-- 
2.43.0


From 33e58731257cc131f68ac24a90e73f8d0337cbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:33 +0000
Subject: [PATCH 08/36] fix: decode the DW_FORM_implicit_const value as signed
 LEB128

---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index a97fde1..1a567f7 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1494,7 +1494,7 @@ class Dwarf_Abbrev_Attr:
             # attributes with this form, the attribute specification contains a third part, which is
             # a signed LEB128 number. The value of this number is used as the value of the
             # attribute, and no value is stored in the .debug_info section.
-            self.value, offset = elf.get_uleb128(data, offset)
+            self.value, offset = elf.get_sleb128(data, offset)
         else:
             self.value = None
         self.size = offset - self.offset
-- 
2.43.0


From 4f411b6fc1e777be93c046a1f810589562bce6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:34 +0000
Subject: [PATCH 09/36] fix: read the whole 8 byte signature of
 DW_FORM_ref_sig8

---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 1a567f7..a861046 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1730,7 +1730,7 @@ class Dwarf_CU:
         elif form == DW_FORM_ref_addr:
             value, offset = self.get_offset(data, offset)
         elif form == DW_FORM_ref_sig8:
-            value, offset = self._elf.get_uint8(data, offset)
+            value, offset = self._elf.get_uint64(data, offset)
         elif form == DW_FORM_ref_sup4:
             value, offset = self._elf.get_uint32(data, offset)
         elif form == DW_FORM_ref_sup8:
-- 
2.43.0


From e0aac31e73841bd434b0c0c96643ae572af8be91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:34 +0000
Subject: [PATCH 10/36] fix: return the cached value of an already evaluated
 DWARF attribute

---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index a861046..8b24afa 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1765,7 +1765,7 @@ class Dwarf_CU:
 
     def get_attr_eval(self, attr: Dict[str, Any]) -> Optional[Any]:
         if 'evaluated' in attr:
-            return attr['eval']
+            return attr['evaluated']
 
         form = attr['form']
         value = attr['value']
-- 
2.43.0


From bbe24fb9b0b03680ba27a013c6de7d34816a2239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:34 +0000
Subject: [PATCH 11/36] fix: sum up section sizes in object file and symbol
 summaries with --unify

---
 esp_idf_size/memorymap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index a18b614..0f658b7 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -755,12 +755,12 @@ def get_symbols_summary(memory_map: Dict[str, Any], args: Dict[str, Any]) -> Dic
 
         symbol_mem_type = symbol['memory_types'][mem_type_name]
         size = symbol_info['size']
-        symbol_mem_type['sections'][section_name]['size'] = size
+        symbol_mem_type['sections'][section_name]['size'] += size
         symbol_mem_type['size'] += size
         symbol['size'] += size
 
         size = symbol_info['size_diff']
-        symbol_mem_type['sections'][section_name]['size_diff'] = size
+        symbol_mem_type['sections'][section_name]['size_diff'] += size
         symbol_mem_type['size_diff'] += size
         symbol['size_diff'] += size
 
@@ -803,12 +803,12 @@ def get_object_files_summary(memory_map: Dict[str, Any], args: Dict[str, Any]) -
 
         object_file_mem_type = object_file['memory_types'][mem_type_name]
         size = object_file_info['size']
-        object_file_mem_type['sections'][section_name]['size'] = size
+        object_file_mem_type['sections'][section_name]['size'] += size
         object_file_mem_type['size'] += size
         object_file['size'] += size
 
         size = object_file_info['size_diff']
-        object_file_mem_type['sections'][section_name]['size_diff'] = size
+        object_file_mem_type['sections'][section_name]['size_diff'] += size
         object_file_mem_type['size_diff'] += size
         object_file['size_diff'] += size
 
-- 
2.43.0


From 123b97b3950138ebbf5d0e400f1df285176e74fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:35 +0000
Subject: [PATCH 12/36] fix: do not loop forever over a memory region outside
 of all memory types

---
 esp_idf_size/memorymap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 0f658b7..4f73ab7 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -913,6 +913,7 @@ def _split_memory_regions(memory_regions: List[Dict[str, Any]], memory_types: Di
                                 'type': mem_reg_splitted['type'],
                             }
                         )
+                        mem_reg_length = 0
                         break
                 else:
                     # No memory type found, this region will be skipped.
-- 
2.43.0


From 7a6c1ed92097b951fa161d28ee8ef4d950900049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:35 +0000
Subject: [PATCH 13/36] fix: keep items starting exactly at the split address
 in one piece

---
 esp_idf_size/memorymap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 4f73ab7..e157b62 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1011,7 +1011,7 @@ def _split_map_sections(sections: List[Dict[str, Any]], regions: List[Dict[str,
                 if input_section_end <= split_addr:
                     # Input section fully fits into new output section1
                     section1['input_sections'].append(input_section)
-                elif input_section['address'] > split_addr:
+                elif input_section['address'] >= split_addr:
                     # Input section fully fits into new output section2
                     section2['input_sections'].append(input_section)
                 else:
@@ -1033,7 +1033,7 @@ def _split_map_sections(sections: List[Dict[str, Any]], regions: List[Dict[str,
                         if symbol_end_addr <= split_addr:
                             # Symbol fully fits into new input section1
                             input_section1['symbols'].append(symbol)
-                        elif symbol['address'] > split_addr:
+                        elif symbol['address'] >= split_addr:
                             # Symbol fully fits into new input section2
                             input_section2['symbols'].append(symbol)
                         else:
-- 
2.43.0


From a1a6a65c2276c0e2c2ab932a921c6766334a57e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:35 +0000
Subject: [PATCH 14/36] fix: sum up equally named symbols within one object
 file

---
 esp_idf_size/memorymap.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index e157b62..243e6d6 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1267,11 +1267,13 @@ def _add_archives_to_sections(sections: List[Dict[str, Any]]) -> None:
             object_file['size'] += input_section['size']
 
             for symbol in input_section['symbols']:
-                object_file['symbols'][symbol['name']] = {
-                    'abbrev_name': symbol['name'],
-                    'size': symbol['size'],
-                    'size_diff': 0,
-                }
+                if symbol['name'] not in object_file['symbols']:
+                    object_file['symbols'][symbol['name']] = {
+                        'abbrev_name': symbol['name'],
+                        'size': 0,
+                        'size_diff': 0,
+                    }
+                object_file['symbols'][symbol['name']]['size'] += symbol['size']
 
         section['abbrev_name'] = _abbrev(section['name'])
         section['archives'] = archives
-- 
2.43.0


From a69933f99cf570de3196270fd7dc0fc51827eda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:35 +0000
Subject: [PATCH 15/36] fix: keep the output section at the end of a map file
 without a cross reference table

---
 esp_idf_size/mapfile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 8f109df..1d9e2cd 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -372,6 +372,12 @@ class MapFile:
                         f'in "Linker script and memory map" section in "{self.fn}" map file'
                     )
 
+        if output_section.get('address') is not None:
+            # The last output section is not followed by an empty line
+            if input_section:
+                add_input_section(output_section, input_section)
+            output_sections.append(output_section)
+
         if not found:
             raise MapFileException(f'cannot parse "Linker script and memory map" section in "{self.fn}" map file')
 
-- 
2.43.0


From c00955e5ab4e4b56c35d391c67279a090a5f3fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:36 +0000
Subject: [PATCH 16/36] fix: print JSON documents verbatim

---
 esp_idf_size/format_json.py | 10 +++++-----
 esp_idf_size/format_raw.py  |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/esp_idf_size/format_json.py b/esp_idf_size/format_json.py
index fad4a18..e41dbcb 100644
--- a/esp_idf_size/format_json.py
+++ b/esp_idf_size/format_json.py
@@ -32,32 +32,32 @@ def show_summary(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
                 'size': section_info['size'],
             }
 
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False, soft_wrap=True)
 
 
 def show_object_files(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     summary = memorymap.get_object_files_summary(memmap, args)
     summary = memorymap.get_summary_sorted(summary, args)
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False, soft_wrap=True)
 
 
 def show_archives(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     summary = memorymap.get_archives_summary(memmap, args)
     summary = memorymap.get_summary_sorted(summary, args)
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False, soft_wrap=True)
 
 
 def show_symbols(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     summary = memorymap.get_symbols_summary(memmap, args)
     summary = memorymap.get_summary_sorted(summary, args)
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False, soft_wrap=True)
 
 
 def show_archives_dependencies(
     memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]
 ) -> None:
     arch_deps = deps.get_archives_dependencies(map_file, memmap, elf, args)
-    log.print(json.dumps(arch_deps, indent=4))
+    log.print(json.dumps(arch_deps, indent=4), markup=False, soft_wrap=True)
 
 
 def show(memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]) -> None:
diff --git a/esp_idf_size/format_raw.py b/esp_idf_size/format_raw.py
index b77f5f7..d1ec945 100644
--- a/esp_idf_size/format_raw.py
+++ b/esp_idf_size/format_raw.py
@@ -11,6 +11,6 @@ from .elf import Elf
 def show(memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]) -> None:
     if args['archive_dependencies']:
         arch_deps = deps.get_archives_dependencies(map_file, memmap, elf, args)
-        log.print(json.dumps(arch_deps, indent=4))
+        log.print(json.dumps(arch_deps, indent=4), markup=False, soft_wrap=True)
     else:
-        log.print(json.dumps(memmap, indent=4))
+        log.print(json.dumps(memmap, indent=4), markup=False, soft_wrap=True)
-- 
2.43.0


From 7b34ec4b03e1c8fbd29cd23ecc1fa1d970500553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:36 +0000
Subject: [PATCH 17/36] fix: do not wrap long CSV lines

---
 esp_idf_size/format_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/format_csv.py b/esp_idf_size/format_csv.py
index c9e1cbf..363b480 100644
--- a/esp_idf_size/format_csv.py
+++ b/esp_idf_size/format_csv.py
@@ -23,7 +23,7 @@ def show_table(table: Table) -> None:
             matrix[y][x] = f'"{cell}"'
 
     for row in matrix:
-        log.print(','.join(row))
+        log.print(','.join(row), soft_wrap=True)
 
 
 def show_summary(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
-- 
2.43.0


From 18fae93268d71cd6ee2d3cceee9c9f6a708c240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:36 +0000
Subject: [PATCH 18/36] fix: sum up sections with the same abbreviated name in
 the JSON summary

---
 esp_idf_size/format_json.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/esp_idf_size/format_json.py b/esp_idf_size/format_json.py
index e41dbcb..4fdea19 100644
--- a/esp_idf_size/format_json.py
+++ b/esp_idf_size/format_json.py
@@ -28,9 +28,11 @@ def show_summary(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
         summary['layout'].append(mem_type)
         for section_name, section_info in mem_type_info['sections'].items():
             name = section_info['abbrev_name'] if args['abbrev'] else section_name
-            mem_type['parts'][name] = {
-                'size': section_info['size'],
-            }
+            if name not in mem_type['parts']:
+                mem_type['parts'][name] = {
+                    'size': 0,
+                }
+            mem_type['parts'][name]['size'] += section_info['size']
 
     log.print(json.dumps(summary, indent=4), markup=False, soft_wrap=True)
 
-- 
2.43.0


From fa542098375786e43ef29f29dd8671ed32178f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:36 +0000
Subject: [PATCH 19/36] fix: do not abort on incomplete project side files

---
 esp_idf_size/memorymap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 243e6d6..b383bb3 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -215,7 +215,7 @@ def get(
             use_dwarf = False
 
     if proj_desc:
-        target = proj_desc['target']
+        target = proj_desc.get('target')
 
     # Parse linker map file memory regions, target, output sections and
     # cross reference table
@@ -1087,6 +1087,9 @@ def _load_json_file(fn: str) -> Optional[Dict[str, Any]]:
     except (OSError, ValueError) as e:
         log.debug(f'{fn} is not available: {e}')
 
+    if not isinstance(data, dict):
+        return None
+
     return data
 
 
-- 
2.43.0


From 93bac194316d74c42f1904c5c63bc0abb7a81809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:37 +0000
Subject: [PATCH 20/36] fix: handle ELF files without sized input sections or
 symbols in the last input sections

---
 esp_idf_size/memorymap.py | 45 ++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index b383bb3..84e4893 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1136,7 +1136,11 @@ def _add_symbols_to_sections(elf: Optional[Elf], osections: List[Dict[str, Any]]
 
     isections = [s for s in sorted(isections, key=lambda s: s.get('address', 0))]  # s.get used to help mypy
 
+    if not isections:
+        return
+
     # Add ELF symbols into input sections
+    isections_all = isections.copy()
     isec = isections.pop(0)
     for symbol in symbols:
         sym_name = symbol.name
@@ -1147,26 +1151,6 @@ def _add_symbols_to_sections(elf: Optional[Elf], osections: List[Dict[str, Any]]
                 # Sanity check that we found input section for symbol
                 raise MemMapException(f'cannot find input section for symbol {sym_name}({sym_addr})')
 
-            if not isec['symbols']:
-                # Input section does not have any ELF symbols assigned.
-                # In e.g. .data or .rodata sections, there might be literals, which do not have symbols
-                # in symbol table. Since the binary is compiled with -fdata-sections, let's add the input
-                # section as "symbol". This should avoid displaying "holes" in the reports. Generally it's
-                # still possible that some libraries/objects, which are e.g. not compiled with -fdata-sections,
-                # may still be missing some "symbols". For example libc.a->lib_a-vfprintf.o: 657 != 117
-                # lib_a-vfprintf.o 657
-                # ├── blanks.1 16
-                # ├── zeroes.0 16
-                # ├── .rodata.str1.4 53
-                # └── .srodata.cst8 32
-                isec['symbols'].append(
-                    {
-                        'name': isec['name'],
-                        'address': isec['address'],
-                        'size': isec['size'],
-                    }
-                )
-
             # Jump to next input section
             isec = isections.pop(0)
 
@@ -1195,6 +1179,27 @@ def _add_symbols_to_sections(elf: Optional[Elf], osections: List[Dict[str, Any]]
             }
         )
 
+    for isec in isections_all:
+        if not isec['symbols']:
+            # Input section does not have any ELF symbols assigned.
+            # In e.g. .data or .rodata sections, there might be literals, which do not have symbols
+            # in symbol table. Since the binary is compiled with -fdata-sections, let's add the input
+            # section as "symbol". This should avoid displaying "holes" in the reports. Generally it's
+            # still possible that some libraries/objects, which are e.g. not compiled with -fdata-sections,
+            # may still be missing some "symbols". For example libc.a->lib_a-vfprintf.o: 657 != 117
+            # lib_a-vfprintf.o 657
+            # ├── blanks.1 16
+            # ├── zeroes.0 16
+            # ├── .rodata.str1.4 53
+            # └── .srodata.cst8 32
+            isec['symbols'].append(
+                {
+                    'name': isec['name'],
+                    'address': isec['address'],
+                    'size': isec['size'],
+                }
+            )
+
     log.debug('linker map output sections filtered with symbols', osections)
 
 
-- 
2.43.0


From 1ad5374ef06466dafb3e57e63f9dc10665658453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:37 +0000
Subject: [PATCH 21/36] fix: report malformed numbers in the map file as
 MapFileException

---
 esp_idf_size/mapfile.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 1d9e2cd..cfa76f4 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -68,7 +68,7 @@ class MapFile:
                     f'in "Memory Configuration" section in "{self.fn}" map file'
                 )
 
-            regions.append({'name': name, 'origin': int(origin, 0), 'length': int(length, 0), 'attrs': attrs})
+            regions.append({'name': name, 'origin': self._get_number(origin, line, ln), 'length': self._get_number(length, line, ln), 'attrs': attrs})
 
         if not found or not header:
             raise MapFileException(f'cannot parse "Memory Configuration" section in "{self.fn}" map file')
@@ -121,6 +121,12 @@ class MapFile:
         # self.line_idx += ln
         return target
 
+    def _get_number(self, value: str, line: str, ln: int) -> int:
+        try:
+            return int(value, 0)
+        except ValueError:
+            raise MapFileException(f'unexpected number "{value}" in "{line}" at line {ln + 1} in "{self.fn}" map file')
+
     def _get_archive_object_file(self, s: str) -> Tuple[str, str]:
         idx = s.find('(')
         if idx == -1:
@@ -287,8 +293,8 @@ class MapFile:
                         input_section['name'] = split[0]
                     elif len(split) == 4:
                         input_section['name'] = split[0]
-                        input_section['address'] = int(split[1], 0)
-                        input_section['size'] = int(split[2], 0)
+                        input_section['address'] = self._get_number(split[1], line, ln)
+                        input_section['size'] = self._get_number(split[2], line, ln)
                         input_section['archive'], input_section['object_file'] = self._get_archive_object_file(split[3])
                     else:
                         raise MapFileException(
@@ -306,8 +312,8 @@ class MapFile:
                                 f'unexpected input section continuous line "{line}" at line {ln + 1} in '
                                 f'"Linker script and memory map" section in "{self.fn}" map file'
                             )
-                        input_section['address'] = int(split[0], 0)
-                        input_section['size'] = int(split[1], 0)
+                        input_section['address'] = self._get_number(split[0], line, ln)
+                        input_section['size'] = self._get_number(split[1], line, ln)
                         input_section['archive'], input_section['object_file'] = self._get_archive_object_file(split[2])
 
                     elif line.startswith('*fill*'):
@@ -317,8 +323,8 @@ class MapFile:
                                 f'unexpected "*fill*" line "{line}" at line {ln + 1} '
                                 f'in "Linker script and memory map" section in "{self.fn}" map file'
                             )
-                        address = int(split[1], 0)
-                        size = int(split[2], 0)
+                        address = self._get_number(split[1], line, ln)
+                        size = self._get_number(split[2], line, ln)
                         if input_section['address'] == address:
                             # Input section address is the same as *fill* address. Set input
                             # section size to zero, but keep the *fill* size. It will be accounted
@@ -334,7 +340,7 @@ class MapFile:
                         # section.
                         split = line.split()
                         if len(split) == 4 and split[2] in self.EXPLICIT_BYTES:
-                            input_section['fill'] += int(split[1], 0)
+                            input_section['fill'] += self._get_number(split[1], line, ln)
 
             elif line.startswith('.'):
                 # Detected new output section. There are two cases
@@ -364,8 +370,8 @@ class MapFile:
                     output_section['name'] = split[0]
                 elif len(split) == 3:
                     output_section['name'] = split[0]
-                    output_section['address'] = int(split[1], 0)
-                    output_section['size'] = int(split[2], 0)
+                    output_section['address'] = self._get_number(split[1], line, ln)
+                    output_section['size'] = self._get_number(split[2], line, ln)
                 else:
                     raise MapFileException(
                         f'unexpected format of output section "{line}" at line {ln + 1} '
-- 
2.43.0


From 283219b37ecc952358ce2be898239677fcea9e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:37 +0000
Subject: [PATCH 22/36] fix: decode 64-bit ELF program headers in their own
 field order

---
 esp_idf_size/elf.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 8b24afa..e411f07 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1368,6 +1368,28 @@ class Elf_Phdr:
     p_flags: int
     p_align: int
 
+    def __init__(self, elf: 'Elf', values: Tuple[int, ...]) -> None:
+        self._elf = elf
+        # The 32-bit and 64-bit versions have the same members, just in a different order.
+        if elf.ehdr.e_ident[EI_CLASS] == ELFCLASS32:
+            self.p_type = values[0]
+            self.p_offset = values[1]
+            self.p_vaddr = values[2]
+            self.p_paddr = values[3]
+            self.p_filesz = values[4]
+            self.p_memsz = values[5]
+            self.p_flags = values[6]
+            self.p_align = values[7]
+        else:
+            self.p_type = values[0]
+            self.p_flags = values[1]
+            self.p_offset = values[2]
+            self.p_vaddr = values[3]
+            self.p_paddr = values[4]
+            self.p_filesz = values[5]
+            self.p_memsz = values[6]
+            self.p_align = values[7]
+
 
 @dataclass
 class Elf_Shdr:
@@ -1975,7 +1997,7 @@ class Elf:
             offset = 0
             while offset < size:
                 hdr, offset = self.get_fmt(phdr_fmt, data, offset)
-                self.phdrs.append(Elf_Phdr(self, *hdr))  # type: ignore
+                self.phdrs.append(Elf_Phdr(self, hdr))  # type: ignore
 
         if self.ehdr.e_shnum:
             size = self.ehdr.e_shnum * self.ehdr.e_shentsize
-- 
2.43.0


From f7c03203f65f476a84090d82f84f23e00ad2af2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:37 +0000
Subject: [PATCH 23/36] fix: keep the tail of an input section expanded by
 DWARF information

---
 esp_idf_size/memorymap.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 84e4893..2a04954 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1422,17 +1422,18 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
                     isec['size'] -= sym.st_size
                 else:
                     # No other symbols fit into this input section
-                    if isec['size'] or not isecs_new:
-                        # There is some part(tail) of the original input section, which
-                        # was not covered by any symbol. Or no symbol fits into this
-                        # input section at all and isecs_new is empty.
-                        isecs_new.append(isec)
-                    else:
-                        # Whole input section was covered by symbols. If it had filling,
-                        # account it into the lastly added input section.
-                        isecs_new[-1]['fill'] = isec['fill']
                     break
 
+            if isec['size'] or not isecs_new:
+                # There is some part(tail) of the original input section, which
+                # was not covered by any symbol. Or no symbol fits into this
+                # input section at all and isecs_new is empty.
+                isecs_new.append(isec)
+            else:
+                # Whole input section was covered by symbols. If it had filling,
+                # account it into the lastly added input section.
+                isecs_new[-1]['fill'] += isec['fill']
+
         # Finally assign expanded input sections into the output section
         osec['input_sections'] = isecs_new
 
-- 
2.43.0


From 0a3943921cb3856c93c87fec6319445cd4b7ffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:38 +0000
Subject: [PATCH 24/36] fix: sum up equally named output sections within one
 memory type

---
 esp_idf_size/memorymap.py | 52 +++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 2a04954..0f59ef7 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1467,6 +1467,34 @@ def _get_memory_types(target: str) -> Dict[str, Any]:
     return memory_types
 
 
+def _merge_items(dst: Dict[str, Any], src: Dict[str, Any]) -> None:
+    # Merge archives, object files and symbols of src into dst.
+    for name, info in src.items():
+        if name not in dst:
+            dst[name] = info
+            continue
+        dst[name]['size'] += info['size']
+        for level in ('object_files', 'symbols'):
+            if level in info:
+                _merge_items(dst[name][level], info[level])
+
+
+def _add_section_to_mem_type(mem_type: Dict[str, Any], section: Dict[str, Any], name: str, abbrev_name: str) -> None:
+    mem_type['used'] += section['size']
+    if name not in mem_type['sections']:
+        mem_type['sections'][name] = {
+            'abbrev_name': abbrev_name,
+            'size': section['size'],
+            'size_diff': 0,
+            'archives': section['archives'],
+        }
+        return
+
+    # There may be more output sections or their parts with the same name in one memory type.
+    mem_type['sections'][name]['size'] += section['size']
+    _merge_items(mem_type['sections'][name]['archives'], section['archives'])
+
+
 def _get_mem_type_map(
     memory_types: Dict[str, Any], memory_regions: List[Dict[str, Any]], map_sections: List[Dict[str, Any]]
 ) -> Dict[str, Any]:
@@ -1535,13 +1563,7 @@ def _get_mem_type_map(
             # the address-based region lookup, which cannot disambiguate on
             # chips where the PSRAM and flash data linker regions share an
             # address window.
-            memory_map[ext_ram_alias]['used'] += map_section['size']
-            memory_map[ext_ram_alias]['sections'][map_section['name']] = {
-                'abbrev_name': map_section['abbrev_name'],
-                'size': map_section['size'],
-                'size_diff': 0,
-                'archives': map_section['archives'],
-            }
+            _add_section_to_mem_type(memory_map[ext_ram_alias], map_section, map_section['name'], map_section['abbrev_name'])
             continue
         prev_mem_reg = None
         for mem_reg in memory_regions_sorted:
@@ -1556,13 +1578,7 @@ def _get_mem_type_map(
                         f'(addr: {address}, size: {mem_reg["length"]})'
                     )
 
-                memory_map[mem_type_alias]['used'] += map_section['size']
-                memory_map[mem_type_alias]['sections'][map_section['name']] = {
-                    'abbrev_name': map_section['abbrev_name'],
-                    'size': map_section['size'],
-                    'size_diff': 0,
-                    'archives': map_section['archives'],
-                }
+                _add_section_to_mem_type(memory_map[mem_type_alias], map_section, map_section['name'], map_section['abbrev_name'])
                 break
             elif address > map_section['address'] and prev_mem_reg:
                 mem_type_alias = prev_mem_reg['type']['name']
@@ -1586,13 +1602,7 @@ def _get_mem_type_map(
                 # clearly mark the overflow part of the output memory section, append "_overflow" to its name.
                 map_section_name = map_section['name'] + '_overflow'
 
-                memory_map[mem_type_alias]['used'] += map_section['size']
-                memory_map[mem_type_alias]['sections'][map_section_name] = {
-                    'abbrev_name': _abbrev(map_section_name),
-                    'size': map_section['size'],
-                    'size_diff': 0,
-                    'archives': map_section['archives'],
-                }
+                _add_section_to_mem_type(memory_map[mem_type_alias], map_section, map_section_name, _abbrev(map_section_name))
                 break
 
             prev_mem_reg = mem_reg
-- 
2.43.0


From 84ebec9f113126540c3e565ac8b36b457dae999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:38 +0000
Subject: [PATCH 25/36] fix: do not execute expressions from chip info files

---
 esp_idf_size/memorymap.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 0f59ef7..34c3137 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -51,6 +51,7 @@ Usage examples:
 
 __all__ = ['get', 'diff', 'unify', 'MemMapException']
 
+import ast
 import copy
 import json
 import os
@@ -1440,6 +1441,28 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
     log.debug('linker map output sections expanded', map_file.sections)
 
 
+def _get_number(value: Any) -> int:
+    # Evaluate a number or a simple integer equation without executing it as code.
+    def evaluate(node: ast.AST) -> int:
+        if isinstance(node, ast.Constant) and type(node.value) is int:
+            return node.value
+        if isinstance(node, ast.BinOp):
+            left = evaluate(node.left)
+            right = evaluate(node.right)
+            if isinstance(node.op, ast.Add):
+                return left + right
+            if isinstance(node.op, ast.Sub):
+                return left - right
+            if isinstance(node.op, ast.Mult):
+                return left * right
+        raise MemMapException(f'invalid number "{value}" in memory types file')
+
+    try:
+        return evaluate(ast.parse(str(value), mode='eval').body)
+    except SyntaxError:
+        raise MemMapException(f'invalid number "{value}" in memory types file')
+
+
 def _get_memory_types(target: str) -> Dict[str, Any]:
     # Load memory types from yml file
     memory_types: Dict[str, Any] = {}
@@ -1452,10 +1475,10 @@ def _get_memory_types(target: str) -> Dict[str, Any]:
         raise MemMapException(f'cannot read memory types file: {e}')
 
     for name, info in memory_types.items():
-        info['primary_address'] = eval(str(info['primary_address']))
-        info['length'] = eval(str(info['length']))
+        info['primary_address'] = _get_number(info['primary_address'])
+        info['length'] = _get_number(info['length'])
         if 'secondary_address' in info:
-            info['secondary_address'] = eval(str(info['secondary_address']))
+            info['secondary_address'] = _get_number(info['secondary_address'])
         else:
             info['secondary_address'] = 0
 
-- 
2.43.0


From cb96cda964974cd8b98d19d2511a3ed950a4b25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:28 +0000
Subject: [PATCH 26/36] fix: count all sections with file contents in the image
 size

The image size summed only SHT_PROGBITS sections, so allocated sections of
other types which carry data in the ELF file (e.g. SHT_INIT_ARRAY) were
missing although they are part of the image. Skip only SHT_NOBITS sections.
---
 esp_idf_size/memorymap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 34c3137..b1deb38 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -63,7 +63,7 @@ import yaml
 from esp_pylib.errors import FatalError
 
 from . import log, mapfile
-from .elf import SHF_ALLOC, SHT_PROGBITS, STT_FUNC, STT_OBJECT, Elf, Elf_Exception, Elf_Shdr, Elf_Sym
+from .elf import SHF_ALLOC, SHT_NOBITS, STT_FUNC, STT_OBJECT, Elf, Elf_Exception, Elf_Shdr, Elf_Sym
 
 VERSION = '1.0'
 
@@ -1236,7 +1236,7 @@ def _get_image_size(elf_sections: Optional[Dict[str, Elf_Shdr]], sections: List[
         return size
 
     for name, info in elf_sections.items():
-        if info.sh_type != SHT_PROGBITS:
+        if info.sh_type == SHT_NOBITS:
             continue
         size += info.sh_size
 
-- 
2.43.0


From 8dfd31fbb8581e1f908d0e747995e102747dd188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:28 +0000
Subject: [PATCH 27/36] fix: sort percentages by their exact value

sort_dict_by_key() converted the sort value to int, so in the summary table
rows whose percentages differ only in the fraction kept an arbitrary order
when sorting by the "Used [%]" column.
---
 esp_idf_size/memorymap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index b1deb38..8932aa5 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -669,7 +669,8 @@ def _get_summary_memory_types(memory_map: Dict[str, Any]) -> Dict[str, Any]:
 
 
 def sort_dict_by_key(dictionary: Dict[str, Any], key: str, reverse: bool) -> Dict[str, Any]:
-    return {k: v for k, v in sorted(dictionary.items(), key=lambda item: int(item[1][key]), reverse=reverse)}
+    # The value may be a percentage, so do not convert it to int, because that would lose the fraction.
+    return {k: v for k, v in sorted(dictionary.items(), key=lambda item: item[1][key], reverse=reverse)}
 
 
 def get_summary_sorted(entries: Dict[str, Any], args: Dict[str, Any]) -> Dict[str, Any]:
-- 
2.43.0


From a8056276b57558de09dd99a124b861046573871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:37 +0000
Subject: [PATCH 28/36] fix: derive the remain difference from the reference
 remain value

If the total size is known only on one side of the diff, the remain value of
the other side is reported as zero, but the difference was calculated as if it
were negative. Use the same rule as for the percentage.
---
 esp_idf_size/format_table.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/format_table.py b/esp_idf_size/format_table.py
index 654d81a..1bcd6e3 100644
--- a/esp_idf_size/format_table.py
+++ b/esp_idf_size/format_table.py
@@ -79,10 +79,14 @@ def get_summary_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
                 / (mem_type_info['size'] - mem_type_info['size_diff'])
                 * 100
             )
+            mem_type_info['remain_diff'] = mem_type_info['remain'] - (
+                (mem_type_info['size'] - mem_type_info['size_diff'])
+                - (mem_type_info['used'] - mem_type_info['used_diff'])
+            )
         else:
             mem_type_info['pct_diff'] = mem_type_info['pct'] - 0
+            mem_type_info['remain_diff'] = mem_type_info['remain'] - 0
 
-        mem_type_info['remain_diff'] = mem_type_info['size_diff'] - mem_type_info['used_diff']
         mem_type_info['total'] = mem_type_info['size']
         mem_type_info['total_diff'] = mem_type_info['size_diff']
 
-- 
2.43.0


From 060f3240b0bf07094b0db3b6793686a3ec10dfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:39 +0000
Subject: [PATCH 29/36] fix: paths with parentheses in the link map are split
 at the archive member

An archive or object file path may contain parentheses itself, for example
"C:/Program Files (x86)/libgcc.a(_divsf3.o)". The path was split at the
first parenthesis, so the archive and object file names were wrong.
---
 esp_idf_size/mapfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index cfa76f4..d2f9fd4 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -128,7 +128,8 @@ class MapFile:
             raise MapFileException(f'unexpected number "{value}" in "{line}" at line {ln + 1} in "{self.fn}" map file')
 
     def _get_archive_object_file(self, s: str) -> Tuple[str, str]:
-        idx = s.find('(')
+        # The path itself might contain parentheses, e.g. "C:/Program Files (x86)/libgcc.a(_divsf3.o)".
+        idx = s.rfind('(') if s.endswith(')') else -1
         if idx == -1:
             # Object file linked directly without archive. As in the original parser,
             # assign a default archive for such object file.
-- 
2.43.0


From e78ed370f414b53b680b24c0c341001cbcbfdd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:17 +0000
Subject: [PATCH 30/36] fix: input section without address line in the link map
 is reported

---
 esp_idf_size/mapfile.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index d2f9fd4..dd1402c 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -190,6 +190,13 @@ class MapFile:
              .rodata.str1.1
                             0x0000000000402013       0x12 test2.o
             """
+            if input_section['address'] is None:
+                # The name of the input section is not followed by its address, size and archive(object_file).
+                raise MapFileException(
+                    f'missing address of input section "{input_section["name"]}" at line {ln + 1} '
+                    f'in "Linker script and memory map" section in "{self.fn}" map file'
+                )
+
             if not output_section['input_sections']:
                 output_section['input_sections'].append(input_section)
                 return
-- 
2.43.0


From 3a8a28aeab3ffe11acf046f5e604d49431d92188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:02 +0000
Subject: [PATCH 31/36] fix: skip the additional header fields of DWARF 5 type,
 skeleton and split units

---
 esp_idf_size/elf.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index e411f07..6c7ec8c 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1122,6 +1122,12 @@ DW_OP_NAME_MAP: Dict[int, str] = {
 DW_CHILDREN_no = 0x00
 DW_CHILDREN_yes = 0x01
 
+# Dwarf5: 7.5.1 Unit Headers
+DW_UT_type = 0x02
+DW_UT_skeleton = 0x04
+DW_UT_split_compile = 0x05
+DW_UT_split_type = 0x06
+
 DW_DIE_DEPTH_MAX = 999999
 
 # https://sourceware.org/git/?p=glibc.git;a=blob;f=elf/elf.h
@@ -1612,6 +1618,12 @@ class Dwarf_CU:
             self.unit_type, offset = elf.get_uint8(data, offset)
             self.address_size, offset = elf.get_uint8(data, offset)
             self.debug_abbrev_offset, offset = self.get_offset(data, offset)
+            # Dwarf5: 7.5.1 Unit Headers, the remaining fields of the other unit types
+            if self.unit_type in (DW_UT_skeleton, DW_UT_split_compile):
+                _, offset = elf.get_uint64(data, offset)  # dwo_id
+            elif self.unit_type in (DW_UT_type, DW_UT_split_type):
+                _, offset = elf.get_uint64(data, offset)  # type_signature
+                _, offset = self.get_offset(data, offset)  # type_offset
         elif self.version <= 4:
             self.debug_abbrev_offset, offset = self.get_offset(data, offset)
             self.address_size, offset = elf.get_uint8(data, offset)
-- 
2.43.0


From 17a877a3a2bbc41c6655ad42ede9abff560c38c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:02 +0000
Subject: [PATCH 32/36] fix: an empty DWARF location description means no
 location

---
 esp_idf_size/elf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 6c7ec8c..8eff11a 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1839,10 +1839,11 @@ class Dwarf_CU:
                     stack = [None]
                     break
 
-            if len(stack) != 1:
+            if len(stack) > 1:
                 raise Elf_Exception(f'invalid DWARF stack {stack}')
 
-            evaluated = stack.pop()
+            # Dwarf5: 2.6.1.1.4 Empty Location Descriptions
+            evaluated = stack.pop() if stack else None
 
         else:
             # Evaluation of form is not supported.
-- 
2.43.0


From f83ef53f80c43c621bd167e42e000a166b345b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:01 +0000
Subject: [PATCH 33/36] fix: keep the value of loclistx and rnglistx attributes

The index was read but dropped, so printing such an attribute failed with a
TypeError.
---
 esp_idf_size/elf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 8eff11a..2ecb67c 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1728,7 +1728,7 @@ class Dwarf_CU:
 
         # loclist class
         elif form == DW_FORM_loclistx:
-            size, offset = self._elf.get_uleb128(data, offset)
+            value, offset = self._elf.get_uleb128(data, offset)
         # DW_FORM_sec_offset handled in addrptr class
 
         # loclistsptr class
@@ -1739,7 +1739,7 @@ class Dwarf_CU:
 
         # rnglist class
         elif form == DW_FORM_rnglistx:
-            size, offset = self._elf.get_uleb128(data, offset)
+            value, offset = self._elf.get_uleb128(data, offset)
         # DW_FORM_sec_offset handled in addrptr class
 
         # rnglistsptr
-- 
2.43.0


From 59858803af8f15ec819bf25d8dba1481bc53daf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:01 +0000
Subject: [PATCH 34/36] fix: read DWARF 2 ref_addr references with the size of
 an address

Only DWARF 3 and later use the offset size. With 8 byte addresses the
following attributes of a DWARF 2 unit were misread.
---
 esp_idf_size/elf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 2ecb67c..9b5e1ea 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1762,7 +1762,11 @@ class Dwarf_CU:
             value, offset = self._elf.get_uleb128(data, offset)
             value += self.offset
         elif form == DW_FORM_ref_addr:
-            value, offset = self.get_offset(data, offset)
+            # Dwarf2: 7.5.4 Attribute Encodings, the size of an address until DWARF 3
+            if self.version <= 2:
+                value, offset = self.get_address(data, offset)
+            else:
+                value, offset = self.get_offset(data, offset)
         elif form == DW_FORM_ref_sig8:
             value, offset = self._elf.get_uint64(data, offset)
         elif form == DW_FORM_ref_sup4:
-- 
2.43.0


From 3329a978c2ee6c8fcbf0c0d4a4cf0070b74b30ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:01 +0000
Subject: [PATCH 35/36] fix: find DWARF abbreviations by their code

Abbreviation codes need not be consecutive nor ordered; such tables ended in
an AssertionError.
---
 esp_idf_size/elf.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 9b5e1ea..2b511ca 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1583,7 +1583,7 @@ class Dwarf_CU:
     size: int
 
     _elf: 'Elf'
-    _abbrev_table: Optional[List[Optional[Dwarf_Abbrev_Entry]]]
+    _abbrev_table: Optional[Dict[int, Dwarf_Abbrev_Entry]]
     _die: Optional[Dict[int, Any]]
     _die_offset: int  # offset into the .debug_info for the first DIE
     _data: bytes  # .debug_info section data
@@ -1640,11 +1640,11 @@ class Dwarf_CU:
         self._die_offset = offset
 
     @property
-    def abbrev_table(self) -> List:
+    def abbrev_table(self) -> Dict[int, Dwarf_Abbrev_Entry]:
         if self._abbrev_table is not None:
             return self._abbrev_table
 
-        self._abbrev_table = [None]
+        self._abbrev_table = {}
 
         shdr = self._elf.lookup_shdr('.debug_abbrev')
         if shdr is None:
@@ -1661,7 +1661,7 @@ class Dwarf_CU:
                 break
 
             entry = Dwarf_Abbrev_Entry(self._elf, data, offset)
-            self._abbrev_table.append(entry)
+            self._abbrev_table[entry.code] = entry
             offset += entry.size
 
         return self._abbrev_table
@@ -2241,9 +2241,7 @@ class Elf:
     def dump_abbrev_table(self) -> None:
         for idx, cu in enumerate(self.CUs):
             print(f'<{cu.debug_abbrev_offset:#010x}> CU<{idx}> at offset {cu.offset:#010x}')
-            for entry in cu.abbrev_table:
-                if entry is None:
-                    continue
+            for entry in cu.abbrev_table.values():
                 print(f'<{entry.offset:#010x}>{" ":3}{entry.code} {entry.tag_name} [{entry.children}]')
                 for attr in entry.attrs:
                     print(f'<{attr.offset:#010x}>{" ":6}{attr.attr_name:30} {attr.form_name}')
-- 
2.43.0


From e9ee68861ada588627df3a9bcbeafb7e1458a079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:34 +0000
Subject: [PATCH 36/36] fix: refuse DWARF versions below 2

Such units do not have the header of DWARF 2 and later and were misread.
---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 2b511ca..dc642ae 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1624,7 +1624,7 @@ class Dwarf_CU:
             elif self.unit_type in (DW_UT_type, DW_UT_split_type):
                 _, offset = elf.get_uint64(data, offset)  # type_signature
                 _, offset = self.get_offset(data, offset)  # type_offset
-        elif self.version <= 4:
+        elif 2 <= self.version <= 4:
             self.debug_abbrev_offset, offset = self.get_offset(data, offset)
             self.address_size, offset = elf.get_uint8(data, offset)
         else:
-- 
2.43.0

