From ea34278bfa57bd320d3a199e698ffca0dddb4504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 01/50] fix: report the end of file inside an unclosed
 construct as such

An unclosed block that ends with a nested construct referred to an
unassigned local variable instead of reporting the unexpected EOF.
---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 446cb7c..2444c99 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -995,7 +995,7 @@ def ps_text( sou, depth = 0 ):
 #   ---------------
     ast = []
     depth_pth_sq = depth_pth = 0
-    _plain_ret = ''
+    _plain_ret = None
     while True:
         trace__ps_( 'ps_text', sou, depth )
 #   ---- set
-- 
2.43.0


From 2f40bc22037d77f2da15f7ad64a8ba8736337f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 02/50] fix: find the tail of a continued Python string by its
 own quote

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 2444c99..ad42bf2 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2126,7 +2126,7 @@ def ps_string_python( sou, depth = 0 ):
                 return ( sou[ p: ], STR( sou[ :p ]))
 
 #           -- tail on other line
-            re_tail = ps_string_python.re_STR_1x1_TAIL if "'" in head else ps_string_python.re_STR_1x2_TAIL
+            re_tail = ps_string_python.re_STR_1x1_TAIL if head.lstrip( 'uUrR' )[ 0 ] == "'" else ps_string_python.re_STR_1x2_TAIL
             _1x = True
     else:
         return ( sou, None )
-- 
2.43.0


From 85d8e3d87f45da2fcbd56dd7e9f5b5dd557faa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 03/50] fix: read integers of C style octal form, with a gap
 after the sign or a double suffix

---
 pp/yugen.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index ad42bf2..6cda0a6 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2193,16 +2193,17 @@ def ps_number( sou, depth = 0 ):
 #   ---- float
     mch = re_FLOAT.match( sou )
     if mch:
-        leg = mch.group( 0 )
+        leg = mch.group( 0 ).replace( ' ', '' )
         return ( sou[ mch.end(): ], FLOAT( leg ))
 
 #   ---- integer
     mch = re_INT.match( sou )
     if mch:
         leg = mch.group( 0 )
-        if leg[ -1 ] in [ 'l', 'L' ]:
-            leg = leg[ :-1 ]
-        return ( sou[ mch.end(): ], INT( leg, 0 ))
+        leg = leg.rstrip( 'lL' ).replace( ' ', '' ).replace( '\t', '' )
+#       -- octal in C style
+        base = 8 if leg.lstrip( '+-' ).isdigit() and leg.lstrip( '+-' )[ 0 ] == '0' else 0
+        return ( sou[ mch.end(): ], INT( leg, base ))
 
     return ( sou, None )
 
-- 
2.43.0


From 78cc55abb1eb76ca80be2b0c581c7c0d5f2029fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 04/50] fix: parse a Python source that consists of a magic
 comment only

---
 pp/yugen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index 6cda0a6..ba8339e 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -955,6 +955,7 @@ def yuparse( input_file ):
             ( sou, header ) = ps_header_python( sou, 0 )
 
 #   ---- text
+        ast = TEXT([])
         text = ps_text( sou, 0 )
         while sou:
             ( sou, ast ) = next( text )
-- 
2.43.0


From cef09b60a2d1a8913a2e83eac28b2b7a98667bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 05/50] fix: forget the elements of previous lists in the
 unique function

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index ba8339e..c8ff9f5 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2782,7 +2782,7 @@ builtin.update({
     'sum': sum,
     'TAB': lambda : STEADY_TAB,
     'typeof': lambda val : ATOM( val.__class__.__name__ ),
-    'unique': lambda l, s=set() : LIST( x for x in l if not ( x in s or s.add( x ))),
+    'unique': lambda l : ( lambda s : LIST( x for x in l if not ( x in s or s.add( x ))))( set()),
     'unq': _unq,
 })
 
-- 
2.43.0


From 46b39e45ce6c43248b66a3b238fbbe4ce9a4523f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 06/50] fix: exit with the status of the preprocessor

---
 __main__.py    | 4 ++--
 pp/__main__.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/__main__.py b/__main__.py
index bb3893c..1850ffa 100644
--- a/__main__.py
+++ b/__main__.py
@@ -21,8 +21,8 @@ from .pp.yup import cli
 
 #   ---------------------------------------------------------------------------
 def main():
-    cli( sys.argv[ 1: ])
+    return cli( sys.argv[ 1: ])
 
 #   ---------------------------------------------------------------------------
 if __name__ == '__main__':
-    main()
+    sys.exit( main())
diff --git a/pp/__main__.py b/pp/__main__.py
index 5451dce..82903da 100644
--- a/pp/__main__.py
+++ b/pp/__main__.py
@@ -2,4 +2,4 @@ import sys
 from .yup import cli
 
 if __name__ == '__main__':
-    cli( sys.argv[ 1: ])
+    sys.exit( cli( sys.argv[ 1: ]))
-- 
2.43.0


From 055b43fabcc8bad59e6aaf0bb5364cba77fff576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 07/50] fix: keep the exit status nonzero for any number of
 failed files

---
 pp/yup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pp/yup.py b/pp/yup.py
index cd3f586..3c6b14f 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -591,7 +591,8 @@ def cli( arglist ):
                     break
                 config.passage += 1
 
-        return f_failed << 2
+#       -- an exit status is a byte
+        return min( f_failed, 63 ) << 2
 
     else:
 #       -- Read-Eval-Print Loop
-- 
2.43.0


From ee628d7ede6feea481f459fd801dc2f90c4467af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 08/50] fix: treat a file that cannot be decoded or written as
 failed

---
 pp/yup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pp/yup.py b/pp/yup.py
index 3c6b14f..e046509 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -426,9 +426,11 @@ def _pp_stream( _stream, fn, fn_o ):
                 shell_savetofile( fn_o, plain )
                 log.warn( 'result was saved as AST file' )
 
-    except IOError as e:
+    except ( EnvironmentError, UnicodeError ) as e:
 #       -- e.g. file operation failure
         log.critical( FAIL, type( e ).__name__, str( e ))
+        ok = False
+        plain = None
 
     return ( ok, plain, fn_o )
 
-- 
2.43.0


From 7f6cf9ccd5ed2d7a9b06bacb5f213ac38b647162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 09/50] fix: put an output file in place only when it is
 complete

---
 pp/yup.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index e046509..8423599 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -74,6 +74,7 @@ E_YUCFG   = '.yuconfig'
 re_e_yu   = re.compile( r'\.yu(?:-([^.]+))?$', flags = re.IGNORECASE )
 E_BAK     = '.bak'
 E_AST     = '.ast'
+E_TMP     = '.tmp'
 
 QUIET_HELP = """
 do not show usual greeting and other information
@@ -229,8 +230,16 @@ def shell_backup( fn ):
 
 #   ---------------------------------------------------------------------------
 def shell_savetofile( fn, text ):
-    with open( fn, mode='w', encoding='utf8' ) as f:
-        f.write( text )
+#   -- an incomplete file should not take the place of the output
+    fn_tmp = fn + E_TMP
+    try:
+        with open( fn_tmp, mode='w', encoding='utf8' ) as f:
+            f.write( text )
+        getattr( os, 'replace', os.rename )( fn_tmp, fn )
+    except:
+        if os.path.isfile( fn_tmp ):
+            os.remove( fn_tmp )
+        raise
 
 
 #   * * * * * * * * * * * * * * * * * *
-- 
2.43.0


From 92403d71f1201bfbafde5758d7924c4e04847054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 10/50] fix: forget constants and scripts of the previous
 translation

---
 pp/yugen.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index c8ff9f5..aa519a0 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2786,8 +2786,13 @@ builtin.update({
     'unq': _unq,
 })
 
+_builtin_pristine = dict( builtin )
+
 #   ---------------------------------------------------------------------------
 def _update_builtin_from_config():
+#   -- forget the definitions of previous translation
+    builtin.clear()
+    builtin.update( _builtin_pristine )
     for x in config.pp_define:
         pair = x.split( ':', 1 )
         rest, atom = ps_atom( pair[ 0 ].strip())
-- 
2.43.0


From 803dd793a2b1bd185b2b059c7a3691d1eec94ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 11/50] fix: find the magic comment in the same way with and
 without translation

---
 pp/yup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index 8423599..82adf06 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -35,7 +35,7 @@ except:
 
 from .yugen import log, trace
 from .yugen import config, feedback, yushell, yuinit, yuparse, yueval, RESULT
-from .yugen import make_ast_readable, reduce_emptiness, replace_steady
+from .yugen import make_ast_readable, reduce_emptiness, replace_steady, re_CODING
 
 from .yulic import *                                                                                                    #pylint: disable=wildcard-import
 from .yuconfig import *                                                                                                 #pylint: disable=wildcard-import,unused-wildcard-import
@@ -544,7 +544,7 @@ def proc_stream( _stream, fn ):
                     data = f.read()
 
                 # print( 'skipped yupp running' )
-                return ( True, data, fn_o, 1 if 'coding:' in _stream.readline() else 2 )
+                return ( True, data, fn_o, 1 if re_CODING.search( _stream.readline()) else 2 )
 
         except:                                                                                                        #pylint: disable=bare-except
 #           -- process input file in the usual way
-- 
2.43.0


From 72663c19a12e154d2ae1cecb7c441ce60fb03de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 12/50] fix: return the name of the file actually written

---
 pp/yup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index 82adf06..f689e80 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -550,8 +550,8 @@ def proc_stream( _stream, fn ):
 #           -- process input file in the usual way
             pass
 
-    ok, data, _ = _pp_stream( _stream, fn, fn_o )
-    return ( ok, data, fn_o, yushell.shrink )
+    ok, data, fn_res = _pp_stream( _stream, fn, fn_o )
+    return ( ok, data, fn_res if ok else fn_o, yushell.shrink )
 
 #   ---------------------------------------------------------------------------
 def proc_file( fn ):
-- 
2.43.0


From 2a8a6121f8da65264a7cf0c2c979a592dab3c657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 13/50] fix: pass the characters FE and FF of a text through
 unchanged

---
 pp/yugen.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index aa519a0..606de99 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -757,6 +757,10 @@ ps_LETTER = frozenset( list( range( ord( 'a' ), ord( 'z' ) + 1 )) + list( range(
 ps_FIGURE = frozenset( list( range( ord( '0' ), ord( '9' ) + 1 )) + [ ord( '-' )])
 #   ---- any printable character
 ps_ANY = frozenset([ ord( EOL ), ord( '\r' ), ord( '\t' )] + list( range( ord( ' ' ), 256 )))
+#   ---- steady SPACE | TAB (noncharacters, they are not found in a text)
+STEADY_SPACE = '\uFDD0'
+STEADY_TAB = '\uFDD1'
+ps_STEADY = frozenset([ ord( STEADY_SPACE ), ord( STEADY_TAB )])
 #   ---- code mark
 ps_CODE = '($code'
 l_CODE = len( ps_CODE )
@@ -1531,7 +1535,7 @@ def ps_plain( sou, pth_sq, pth, indent, depth = 0 ):
         if symbol is None:
             raise EOFError( '%s: unexpected EOF:' % ( callee()))
 
-        if symbol not in ps_ANY:
+        if symbol not in ps_ANY and symbol not in ps_STEADY:
             raise SyntaxError( '%s: forbidden character' % ( callee()) + sou.loc())
 
 #   ---- [switch ...
@@ -2652,8 +2656,6 @@ class SKIP( BASE_MARK ):
 #   -----------------------------------
 
 SOURCE_EMPTY = '<null>'
-STEADY_SPACE = '\xFE'
-STEADY_TAB = '\xFF'
 
 #   ---------------------------------------------------------------------------
 def yushell( text, _input = None, _output = None ):
-- 
2.43.0


From 88edcd61bed70d0a47f55401a71802ece88bbe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 14/50] fix: split lines and trim spacing without touching NEL
 and NBSP characters

---
 pp/yugen.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 606de99..afa6b79 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -342,7 +342,7 @@ class PLAIN( BASE_STR ):
 
         if config.pp_trim_app_indent and self.trim:
 #           -- delete spacing after SET or MACRO
-            return st.lstrip()
+            return st.lstrip( SPACING )
 
         return st
 
@@ -350,14 +350,14 @@ class PLAIN( BASE_STR ):
     def get_trimmed_with_browse( self ):
         if config.pp_trim_app_indent and self.trim:
 #           -- delete spacing after SET or MACRO
-            return self[ len( self ) - len( self.lstrip()): ]
+            return self[ len( self ) - len( self.lstrip( SPACING )): ]
 
         return self
 
 #   -----------------------------------
     def add_indent( self, indent ):
         if self.indent is not None:
-            ln = self.splitlines( True )
+            ln = _split_lines( self )
             if ord( self[ -1 ]) in ps_EOL:
                 ln.append( '' )
             return PLAIN( indent.join( ln )
@@ -755,6 +755,8 @@ ps_SPACE = frozenset([ ord( ' ' ), ord( '\t' )])
 ps_LETTER = frozenset( list( range( ord( 'a' ), ord( 'z' ) + 1 )) + list( range( ord( 'A' ), ord( 'Z' ) + 1 )) + [ ord( '_' )])
 #   ---- any figure
 ps_FIGURE = frozenset( list( range( ord( '0' ), ord( '9' ) + 1 )) + [ ord( '-' )])
+#   ---- spacing around a text
+SPACING = ' \t\r\n\f\v'
 #   ---- any printable character
 ps_ANY = frozenset([ ord( EOL ), ord( '\r' ), ord( '\t' )] + list( range( ord( ' ' ), 256 )))
 #   ---- steady SPACE | TAB (noncharacters, they are not found in a text)
@@ -867,6 +869,15 @@ def _unq( st ):
 def _unify_eol( st ):
     return st.replace( '\r\n', EOL ).replace( '\r', EOL )
 
+#   ---------------------------------------------------------------------------
+def _split_lines( st ):
+    """
+    Split a text by EOL only (unlike splitlines, which e.g. splits Latin-1 texts by NEL).
+    """
+#   ---------------
+    ln = str( st ).split( EOL )
+    return [ x + EOL for x in ln[ :-1 ]] + ( ln[ -1: ] if ln[ -1 ] else [])
+
 #   ---------------------------------------------------------------------------
 def _import_source( lib, once ):
 #   -- prevent libraries re-import
@@ -2420,14 +2431,14 @@ class TRIM( BASE_OBJECT, CAPTION ):
         if not plain or not config.pp_trim_app_indent:
             return plain
 
-        return self.indent.join( dedent( plain ).splitlines( True ))
+        return self.indent.join( _split_lines( dedent( plain )))
 
 #   -----------------------------------
     def trim_with_browse( self, plain ):
         if not plain or not config.pp_trim_app_indent:
             return plain
 
-        lnlist = plain.splitlines( True )
+        lnlist = _split_lines( plain )
 
 #       -- find shared indent, mark empty lines
         cutting = ''
@@ -3838,7 +3849,7 @@ def reduce_emptiness( text ):
         return text
 
     if isinstance( text, RESULT ):
-        lnlist = text.splitlines( True )
+        lnlist = _split_lines( text )
 
 #       -- find empty lines
         empty = set()
@@ -3889,12 +3900,12 @@ def reduce_emptiness( text ):
 
     def _filter( ln ):
         _empty = _filter.empty
-        _filter.empty = not ln.strip()
+        _filter.empty = not ln.strip( SPACING )
         return not _empty or not _filter.empty
 
     _filter.empty = False
 
-    return '\n'.join([ x.rstrip() for x in text.splitlines() if _filter( x )]) + '\n'
+    return '\n'.join([ x.rstrip( SPACING ) for x in _split_lines( text ) if _filter( x )]) + '\n'
 
 #   ---------------------------------------------------------------------------
 def replace_steady( text ):
-- 
2.43.0


From 3497dce73e37e909a8881e3e7978a948b249a174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:37 +0000
Subject: [PATCH 15/50] fix: evaluate a macro whose text is a comment only

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index afa6b79..22a6d00 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3611,7 +3611,7 @@ def yueval( node, env = ENV(), depth = 0 ):
                 _macro = str( len( yushell.inclusion ) - 1 )
                 yushell.source[ _macro ] = ( node.decl, node.ast )
                 node = yuparse( _macro )
-                if not node.ast:
+                if all( isinstance( x, COMMENT ) for x in node.ast ):
                     return None
 
                 if any( isinstance( x, SET ) for x in node.ast ):
-- 
2.43.0


From ff53c2d91275146bcbcc7cbfb60056674f7ba062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 16/50] fix: pad a number, not its inner representation, in the
 zfill function

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 22a6d00..7c30e72 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2739,7 +2739,7 @@ if 'lower' not in builtin:
         'ljust': lambda s, width, *args : s.ljust( width, *args ),
         'rjust': lambda s, width, *args : s.rjust( width, *args ),
         'center': lambda s, width, *args : s.center( width, *args ),
-        'zfill': lambda x, width : x.zfill( width ) if isinstance( x, str ) else repr( x ).zfill( width ),
+        'zfill': lambda x, width : x.zfill( width ) if isinstance( x, str ) else str( x ).zfill( width ),
         'expandtabs': lambda s, tabsize=8 : s.expandtabs( tabsize ),
         'translate': lambda s, table, deletions="" : s.translate( table, deletions ) if deletions or table is None else s.translate( table + s[ :0 ]),
         'capitalize': lambda s : s.capitalize(),
-- 
2.43.0


From 8ba6548a5b543c5fea24f2928cfeb89a98d16fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 17/50] fix: use int in the atol function, there is no long in
 Python 3

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 7c30e72..68e0381 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2735,7 +2735,7 @@ if 'lower' not in builtin:
         'rfind': lambda s, *args : s.rfind( *args ),
         'atof': lambda s : float( s ),
         'atoi': lambda s , base=10 : int( s, base ),
-        'atol': lambda s, base=10 : long( s, base ),
+        'atol': lambda s, base=10 : int( s, base ),
         'ljust': lambda s, width, *args : s.ljust( width, *args ),
         'rjust': lambda s, width, *args : s.rjust( width, *args ),
         'center': lambda s, width, *args : s.center( width, *args ),
-- 
2.43.0


From dbafb7685d56f3f40b254c38064744659be35922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 18/50] fix: return the parts of modf as a list

---
 pp/yugen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index 68e0381..173e23b 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2776,6 +2776,7 @@ builtin.update({
     'islist': lambda l : isinstance( l, list ),
     'len': len,
     'list': lambda *l : LIST( l ),
+    'modf': lambda x : LIST( math.modf( x )),
     'not': operator.not_,
     'oct': oct,
     'or': operator.or_,
-- 
2.43.0


From 6355abc5fd9fd636d6b727bf9911ef7295fb3f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 19/50] fix: drop empty pieces in the re-split function as
 documented

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 173e23b..c1eb92b 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2786,7 +2786,7 @@ builtin.update({
     'qs': lambda val : STR( "'%s'" % codecs.unicode_escape_encode( str( val ))[ 0 ].decode()),
     'range': lambda *l : LIST( list( range( *l ))),
     'reversed': lambda val : val[ ::-1 ],
-    're-split': lambda regex, val : LIST([ x for x in re.split( regex, val ) if x is not None ]),
+    're-split': lambda regex, val : LIST([ x for x in re.split( regex, val ) if x ]),
 # -- redefine
     'rindex': lambda l, val : ( len( l ) - 1 ) - l[ ::-1 ].index( val ) if val in l else -1,
     'round': round,
-- 
2.43.0


From 1c914bcdd4d99570ca5fcfe34c2f08a7fe4744bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 20/50] fix: restore the repeat function, which Python 3 has no
 more

---
 pp/yugen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index c1eb92b..ab26e0d 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2785,6 +2785,7 @@ builtin.update({
     'q': lambda val : STR( '"%s"' % codecs.unicode_escape_encode( str( val ))[ 0 ].decode()),
     'qs': lambda val : STR( "'%s'" % codecs.unicode_escape_encode( str( val ))[ 0 ].decode()),
     'range': lambda *l : LIST( list( range( *l ))),
+    'repeat': lambda seq, i : seq * i,
     'reversed': lambda val : val[ ::-1 ],
     're-split': lambda regex, val : LIST([ x for x in re.split( regex, val ) if x ]),
 # -- redefine
-- 
2.43.0


From bf2224995d3a41f1d762f63f7fe80d7c7a21597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 21/50] fix: slice up to the end if only a start is given to
 the getslice function

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index ab26e0d..456bdf8 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2766,7 +2766,7 @@ builtin.update({
     'crc32': lambda val : ( zlib.crc32( bytes( val, 'utf8' )) & 0xffffffff ),
     'dec': lambda val : ( val - 1 ),
     'div': operator.truediv,
-    'getslice': lambda l, *sl : l[ slice( *( None if x == '' else x for x in sl ))],
+    'getslice': lambda l, *sl : l[ slice( *( None if x == '' else x for x in ( sl if len( sl ) > 1 else sl + ( '', ))))],
     'hex': hex,
     'inc': lambda val : ( val + 1 ),
 # -- redefine
-- 
2.43.0


From 8bbce3f5f485ef1983ffb5210c02e7e39f1fdf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 22/50] fix: restore the maketrans function and the deletions
 of translate

---
 pp/yugen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 456bdf8..70e8959 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2741,7 +2741,8 @@ if 'lower' not in builtin:
         'center': lambda s, width, *args : s.center( width, *args ),
         'zfill': lambda x, width : x.zfill( width ) if isinstance( x, str ) else str( x ).zfill( width ),
         'expandtabs': lambda s, tabsize=8 : s.expandtabs( tabsize ),
-        'translate': lambda s, table, deletions="" : s.translate( table, deletions ) if deletions or table is None else s.translate( table + s[ :0 ]),
+        'translate': lambda s, table, deletions="" : ''.join( x for x in s if x not in deletions ).translate( table or {}),
+        'maketrans': lambda _from, to : ''.join( chr( str.maketrans( _from, to ).get( i, i )) for i in range( 256 )),
         'capitalize': lambda s : s.capitalize(),
         'replace': lambda s, old, new, maxreplace=-1 : s.replace( old, new, maxreplace )
     })
-- 
2.43.0


From 80226d1a6f9ffa0ea616892cae0d2d31069a1518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 23/50] fix: find unique elements of lists of lists

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 70e8959..19450b2 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2798,7 +2798,7 @@ builtin.update({
     'sum': sum,
     'TAB': lambda : STEADY_TAB,
     'typeof': lambda val : ATOM( val.__class__.__name__ ),
-    'unique': lambda l : ( lambda s : LIST( x for x in l if not ( x in s or s.add( x ))))( set()),
+    'unique': lambda l : ( lambda s : LIST( x for x in l if not ( x in s or s.append( x ))))([]),
     'unq': _unq,
 })
 
-- 
2.43.0


From 081791a1309cefc377147cb7a82d55489ec22884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:37 +0000
Subject: [PATCH 24/50] fix: do not take options of the previous command line
 as defaults

---
 pp/yup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index f689e80..9f20838 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -114,13 +114,13 @@ def shell_parse_cli_arguments( arglist ):
     )
     argp.add_argument( '--version', action = 'version', version = '%(app)s %(version)s' % { 'app': APP, 'version': VERSION })
     argp.add_argument( 'files', metavar = 'FILE', type = str, nargs = '*', help = "an input file" )
-    argp.add_argument( '-q', '--quiet', action = 'store_true', dest = 'quiet', default = shell.quiet
+    argp.add_argument( '-q', '--quiet', action = 'store_true', dest = 'quiet', default = QUIET
     , help = QUIET_HELP )
     argp.add_argument( '-d', action = 'append', metavar = 'DIR', dest = 'directory'
     , help = "an import directory" )
     argp.add_argument( '-o', '--output', metavar = 'DIR', dest = 'output_dir', default = ''
     , help = "an output directory" )
-    argp.add_argument( '--no-read-only', action = 'store_false', dest = 'read_only', default = shell.read_only
+    argp.add_argument( '--no-read-only', action = 'store_false', dest = 'read_only', default = READ_ONLY
     , help = READ_ONLY_HELP )
 #   -- preprocessor options
     argp.add_argument( '--pp-skip-comments', metavar = 'TYPE', type = int, dest = 'pp_skip_comments'
@@ -150,7 +150,7 @@ def shell_parse_cli_arguments( arglist ):
     argp.add_argument( '-b', '--traceback', metavar = 'TYPE', type = int, dest = 'traceback'
     , default = TRACEBACK, choices = list( range( 0, 3 ))
     , help = TRACEBACK_HELP )
-    argp.add_argument( '--type-file', action = 'store_true', dest = 'type_output', default = shell.type_output
+    argp.add_argument( '--type-file', action = 'store_true', dest = 'type_output', default = TYPE_OUTPUT
     , help = TYPE_OUTPUT_HELP )
     argp.add_argument( '-i', '--input', metavar = 'TEXT', type = str, dest = 'text', default = ''
     , help = "an input text (used by Web Console)" )
-- 
2.43.0


From c1a3298b87903b5adf9425b12836deae55ea8818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 25/50] fix: report errors also when tracing goes to the
 standard output

---
 pp/yup.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index 9f20838..848ed8c 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -304,7 +304,6 @@ def _pp():
 #   ---------------
     trace.set_current( TRACE_STAGE_PARSE )
     TR2F = trace.enabled and trace.file
-    LOG = not trace.enabled or trace.file
 #   -- parse
     try:
         if TR2F:
@@ -326,8 +325,7 @@ def _pp():
         msg += ''.join( traceback.format_exception_only( e_type, e ))
         if TR2F:
             trace.info( msg )
-        if LOG:
-            log.error( msg )
+        log.error( msg )
         if trace.enabled:
             trace.info( trace.TEMPL_DEEPEST, trace.deepest )
         if TR2F:
@@ -337,7 +335,6 @@ def _pp():
 #   -- eval
     trace.set_current( TRACE_STAGE_EVAL )
     TR2F = trace.enabled and trace.file
-    LOG = not trace.enabled or trace.file
     try:
         plain = yueval( ast )
 
@@ -364,8 +361,7 @@ def _pp():
         msg += ''.join( traceback.format_exception_only( e_type, e ))
         if TR2F:
             trace.info( msg )
-        if LOG:
-            log.error( msg )
+        log.error( msg )
         if trace.enabled:
             trace.info( trace.TEMPL_DEEPEST, trace.deepest )
         if TR2F:
-- 
2.43.0


From cff17e8c41deb60a548275c2d805dad8fec7ebef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 26/50] fix: name the output of an imported file after the
 options of its own run are set

---
 pp/yup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index 848ed8c..c849e28 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -522,11 +522,11 @@ def proc_stream( _stream, fn ):
     """
 #   -- read shebang and magic comment again
     _stream.seek( 0 )
+    cfg = shell_parse_yuconfig( fn )
+    _pp_configure( cfg )
 #   -- figure out a name for output file
     fn_o = _output_fn( fn )
 
-    cfg = shell_parse_yuconfig( fn )
-    _pp_configure( cfg )
 #   -- check that we can skip re-preprocessing
     if not cfg.get( 'force', False ) and os.path.isfile( fn_o ):
         try:
-- 
2.43.0


From 81db876d87835e0bdd9738ba529991d59c2c13f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 27/50] fix: do not let a Python script inherit names from an
 earlier script of the same name

---
 pp/yugen.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index 19450b2..2b06c27 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -914,12 +914,17 @@ def _import_python( name, script ):
             lpath = os.path.join( d, script )
             if os.path.isfile( lpath ):
                 break
+#   -- a loaded module of the same name would be re-executed in place
+    loaded = sys.modules.pop( name, None )
     try:
         mod = imp.load_source( name, str( lpath ))
         builtin.update( vars( mod ))
     except:
         e_type, e, tb = sys.exc_info()
         raise_( e_type, 'ps_import_python: %s' % ( e ) + script.loc(), tb )
+    finally:
+        if loaded is not None:
+            sys.modules[ name ] = loaded
 
     yushell.script.append( script )
 
-- 
2.43.0


From 58ee2ced76ad94e8d9cd593d9a9621e409019a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:36 +0000
Subject: [PATCH 28/50] fix: translate every passage of a source whose lists of
 passages differ in length

---
 pp/yugen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 2b06c27..15b0657 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3269,7 +3269,8 @@ def yueval( node, env = ENV(), depth = 0 ):
                                 + node.fn.atom.loc())
 
                             passage_max = len( node.args[ 0 ]) - 1
-                            feedback.repeat = config.passage < passage_max
+                            if config.passage < passage_max:
+                                feedback.repeat = True
                             return node.args[ 0 ][ config.passage ] if config.passage <= passage_max else None
 
 #   ---- APPLY -- BUILTIN -- function
-- 
2.43.0


From ff2aa5344481115b0cbfc7894f4ebaa5047a1023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 29/50] fix: start with the first passage whatever was
 translated before

---
 pp/yup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pp/yup.py b/pp/yup.py
index c849e28..ae5d022 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -259,6 +259,7 @@ def _pp_configure( cfg ):
     config.pp_define = cfg.get( 'pp_define', [])
     config.warn_unbound_application = cfg.get( 'warn_unbound_application', WARN_UNBOUND_APPLICATION )
     config.directory = cfg.get( 'directory', [])
+    config.passage = 0
     shell.quiet = cfg.get( 'quiet', QUIET )
     shell.type_output = cfg.get( 'type_output', TYPE_OUTPUT )
     shell.output_dir = cfg.get( 'output_dir', '' )
-- 
2.43.0


From c860bf3e976a8f79fdce84a0743df3cbe179db0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 30/50] fix: import a module that has the name of the input
 file

---
 pp/yugen.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 15b0657..2cfb809 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -880,17 +880,19 @@ def _split_lines( st ):
 
 #   ---------------------------------------------------------------------------
 def _import_source( lib, once ):
-#   -- prevent libraries re-import
-    if once and lib in yushell.source:
-#       -- library has already been imported
-        return SOURCE_EMPTY
-
     lpath = lib
     if not os.path.isfile( lpath ):
         for d in yushell.directory:
             lpath = os.path.join( d, lib )
             if os.path.isfile( lpath ):
                 break
+#   -- unlike the name of input file, it is a full path
+    _import = os.path.abspath( lpath )
+#   -- prevent libraries re-import
+    if once and ( _import in yushell.source or _import == yushell.input_path ):
+#       -- library has already been imported
+        return SOURCE_EMPTY
+
     try:
         with open( lpath, 'r' ) as f:
             sou = _unify_eol( f.read())
@@ -898,8 +900,8 @@ def _import_source( lib, once ):
         e_type, e, tb = sys.exc_info()
         raise_( e_type, 'ps_import: %s' % ( e ) + lib.loc(), tb )
 
-    yushell.source[ lib ] = ( lpath, sou )
-    return lib
+    yushell.source[ _import ] = ( lpath, sou )
+    return _import
 
 #   ---------------------------------------------------------------------------
 def _import_python( name, script ):
@@ -2676,6 +2678,7 @@ SOURCE_EMPTY = '<null>'
 #   ---------------------------------------------------------------------------
 def yushell( text, _input = None, _output = None ):
     yushell.input_file = os.path.basename( _input ) if _input else '<stdin>'
+    yushell.input_path = os.path.abspath( _input ) if _input else None
     yushell.output_file = os.path.basename( _output ) if _output else '<stdout>'
 #   -- output file is in Python
     yushell.output_python = os.path.splitext( yushell.output_file )[ 1 ].lower() == E_PY
-- 
2.43.0


From e5094c74f0fdfae219e91b8b83111e2b30e09098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:56 +0000
Subject: [PATCH 31/50] fix: count lines of error reports by line ends only

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 2cfb809..b110abd 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -233,7 +233,7 @@ def _loc( input_file, pos, pointer = True ):
     eol = sou.find( EOL, pos )
     if eol == -1:
         eol = len( sou )
-    lnlist = sou[ :eol ].splitlines()
+    lnlist = [ x.rstrip( EOL ) for x in _split_lines( sou[ :eol ])]
     result += fmt % ( decl, len( lnlist ))
     ln = lnlist[ -1 ].lstrip() if lnlist else '<not found>'
     result += LOC_LINE % ( ln )
-- 
2.43.0


From 16a06a925ea5ffba02720f3b4047e0a980da29e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 32/50] fix: tell an input file named by a number from a macro
 text

---
 pp/yugen.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index b110abd..7b4e45c 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -208,6 +208,9 @@ LOC_MACRO = '\n  Macro "%s", line %d'
 LOC_LINE = '\n    %s'
 LOC_REPR = ': %s'
 
+#   -- macro text or eval import (unlike an input file, which can be named by a number)
+INCLUSION = '\n%d'
+
 #   ---------------------------------------------------------------------------
 def _loc_repr( x ):
     return LOC_REPR % ( repr( x )[ :ERR_SLICE ])
@@ -216,7 +219,7 @@ def _loc_repr( x ):
 def _loc( input_file, pos, pointer = True ):
     result = ''
     decl, sou = yushell.source[ input_file ]
-    if input_file.isdigit():
+    if input_file.startswith( EOL ):
 #       -- location is into macro or eval import
         call = yushell.inclusion[ int( input_file )]
         if call:
@@ -940,7 +943,7 @@ def _import_eval( infix ):
         raise_( e_type, 'ps_import_eval: %s' % ( e ) + infix.loc(), tb )
 
     yushell.inclusion.append( None )
-    _import = str( len( yushell.inclusion ) - 1 )
+    _import = INCLUSION % ( len( yushell.inclusion ) - 1 )
     yushell.source[ _import ] = ( code, sou )
     return _import
 
@@ -2956,7 +2959,7 @@ class RESULT( str ):
     @classmethod
     def loc( cls, input_file, pos ):
         decl = yushell.source[ input_file ][ 0 ]
-        if input_file.isdigit():
+        if input_file.startswith( EOL ):
             result = []
 #           -- location is into macro or eval import
             call = yushell.inclusion[ int( input_file )]
@@ -3620,7 +3623,7 @@ def yueval( node, env = ENV(), depth = 0 ):
                         node.ast = '($' + node.ast + ')'
 
                 yushell.inclusion.append( node.call )
-                _macro = str( len( yushell.inclusion ) - 1 )
+                _macro = INCLUSION % ( len( yushell.inclusion ) - 1 )
                 yushell.source[ _macro ] = ( node.decl, node.ast )
                 node = yuparse( _macro )
                 if all( isinstance( x, COMMENT ) for x in node.ast ):
-- 
2.43.0


From 87a107685b9557a4c3c4727d73946953c0499f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 33/50] fix: report the place of an unexpected end of file

---
 pp/yugen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 7b4e45c..660297f 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -1554,7 +1554,7 @@ def ps_plain( sou, pth_sq, pth, indent, depth = 0 ):
         symbol = _ord( sou, i )
 #   ---- ANY
         if symbol is None:
-            raise EOFError( '%s: unexpected EOF:' % ( callee()))
+            raise EOFError( '%s: unexpected EOF' % ( callee()) + sou[ i: ].loc())
 
         if symbol not in ps_ANY and symbol not in ps_STEADY:
             raise SyntaxError( '%s: forbidden character' % ( callee()) + sou.loc())
@@ -2164,7 +2164,7 @@ def ps_string_python( sou, depth = 0 ):
         ln_start, ln_end = _getline( sou, ln_end )
         ln = sou[ ln_start:ln_end ]
         if not ln:
-            raise EOFError( '%s: unexpected EOF into multi-line string:' % ( callee()))
+            raise EOFError( '%s: unexpected EOF into multi-line string' % ( callee()) + sou[ sou_p: ].loc())
 
         mch_tail = re_tail.match( ln )
         if mch_tail:
-- 
2.43.0


From 6b25d18ed97f89ef193a2de1e0df1a13d105a0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 34/50] fix: report the place of an import that is given by a
 string

---
 pp/yugen.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 660297f..9d2e0b9 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2088,14 +2088,12 @@ def ps_quote( sou, depth = 0 ):
 #   ---- C string
         mch = re_STR.match( sou )
         if mch:
-            leg = mch.group( 0 )
-            return ( sou[ mch.end(): ], STR( leg ))
+            return ( sou[ mch.end(): ], STR( sou[ :mch.end()]))
 
 #   ---- chr
         mch = re_CHR.match( sou )
         if mch:
-            leg = mch.group( 0 )
-            return ( sou[ mch.end(): ], STR( leg ))
+            return ( sou[ mch.end(): ], STR( sou[ :mch.end()]))
 
 #   ---- (` | ($quote
     pos = ( l_BQUOTE if sou[ :l_BQUOTE ] == ps_BQUOTE else l_QUOTE if sou[ :l_QUOTE ] == ps_QUOTE else 0 )
-- 
2.43.0


From e9d303d0538c35e4115b94e24a1c2fdde27eb5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:29 +0000
Subject: [PATCH 35/50] fix: report the line of a forbidden character

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 9d2e0b9..6d35131 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -1557,7 +1557,7 @@ def ps_plain( sou, pth_sq, pth, indent, depth = 0 ):
             raise EOFError( '%s: unexpected EOF' % ( callee()) + sou[ i: ].loc())
 
         if symbol not in ps_ANY and symbol not in ps_STEADY:
-            raise SyntaxError( '%s: forbidden character' % ( callee()) + sou.loc())
+            raise SyntaxError( '%s: forbidden character' % ( callee()) + sou[ i: ].loc())
 
 #   ---- [switch ...
         if symbol == ord( '[' ):
-- 
2.43.0


From 3437297821c3b4ac207b0889949921a4c5bb9920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:34 +0000
Subject: [PATCH 36/50] fix: report the call of a macro that has several
 parameters

---
 pp/yugen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 6d35131..d8505c3 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3336,7 +3336,8 @@ def yueval( node, env = ENV(), depth = 0 ):
 #                           --> yueval( apply( yueval( apply( yueval( form ) yueval( arg0 ))) yueval( arg1 )))
 #   ---- APPLY -- M_CLOSURE
                 elif isinstance( node.fn, LAMBDA_CLOSURE ):
-                    node.fn.call = _call
+                    if _call is not None:
+                        node.fn.call = _call
 #                   -- apply named arguments
                     if node.named:
                         var, val = node.named.pop( 0 )
-- 
2.43.0


From b517358ba5a08771265e7906da537801a241b3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:06 +0000
Subject: [PATCH 37/50] fix: substitute blocks with the same indents when
 browsing

---
 pp/yugen.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index d8505c3..bcc9f02 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2449,7 +2449,7 @@ class TRIM( BASE_OBJECT, CAPTION ):
         lnlist = _split_lines( plain )
 
 #       -- find shared indent, mark empty lines
-        cutting = ''
+        cutting = None
         empty = set()
         for i, ln in enumerate( lnlist ):
             ( rest, indent ) = ps_space( ln )
@@ -2458,27 +2458,22 @@ class TRIM( BASE_OBJECT, CAPTION ):
                 empty.add( i )
                 continue
 
-            if cutting is None:
-#               -- no common indent
-                continue
-
-            if indent is None:
-#               -- no indent
-                cutting = None
+            if not rest:
+#               -- only spacing after last EOL
                 continue
 
-            if not cutting:
+            indent = indent or ''
+            if cutting is None:
 #               -- first not empty line
                 cutting = indent
-            elif indent.startswith( cutting ):
-#               -- line more deeply indented
-                pass
-            elif cutting.startswith( indent ):
-#               -- line less deeply indented
-                cutting = indent
             else:
-#               -- no common indent
-                cutting = None
+#               -- line less deeply indented or only start of indent is common
+                cutting = os.path.commonprefix([ cutting, indent ])
+
+#       -- spacing after last EOL is removed
+        rest_len = 0
+        if lnlist and not lnlist[ -1 ].strip( ' \t' ):
+            rest_len = len( lnlist.pop())
 
 #       -- remove shared indent, add specified indent
         c = len( cutting ) if cutting is not None else 0
@@ -2506,6 +2501,8 @@ class TRIM( BASE_OBJECT, CAPTION ):
                         offset.append(( pos, total ))
                         pos += 1
             pos += len( ln )
+        if rest_len:
+            offset.append(( pos, total + rest_len ))
 
 #       -- merge with previous offsets
         if plain.offset:
-- 
2.43.0


From f66c365df80a795c01d5cbc870526d356654d343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 38/50] fix: lead to the place in the first part of a source
 when browsing

---
 sublime_text/Data/Packages/yupp/yupp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sublime_text/Data/Packages/yupp/yupp.py b/sublime_text/Data/Packages/yupp/yupp.py
index 8ba5961..588cf95 100644
--- a/sublime_text/Data/Packages/yupp/yupp.py
+++ b/sublime_text/Data/Packages/yupp/yupp.py
@@ -235,7 +235,7 @@ class GotoOriginCommand( sublime_plugin.TextCommand ):
                 dirs = self.view.window().folders()
                 # search for original file in project directories
                 fn_to = search_file( fn_fruit, dirs, inx )
-                if ( i > 0 ) and ( browse[ i - 1 ][ 0 ] != pos_found ) and ( pos_to > 0 ):
+                if (( i == 0 ) or ( browse[ i - 1 ][ 0 ] != pos_found )) and ( pos_to >= 0 ):
                     # relative shift only in case of single jump
                     # and if origin is not ($macro)
                     pos_to += ( pos_fruit + delta - pos_found )
-- 
2.43.0


From eeb02f40f4b8c8336d8daf989239a0defcdc385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 39/50] fix: import with settings that delete a list option

---
 pp/yup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index ae5d022..208eb4b 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -200,11 +200,11 @@ def shell_parse_yuconfig( fn ):
 #   -- configuration for concrete source file
     _exec_yuconfig_script( os.path.splitext( fn )[ 0 ] + E_YUCFG, context )
     cfg = { k: val for k, val in list( context.items()) if isinstance( val, yuconfig_types )}
-    if isinstance( context[ 'directory' ], list ):
+    if isinstance( context.get( 'directory' ), list ):
         cfg[ 'directory' ] = context[ 'directory' ]
-    if isinstance( context[ 'dependency' ], list ):
+    if isinstance( context.get( 'dependency' ), list ):
         cfg[ 'dependency' ] = context[ 'dependency' ]
-    if isinstance( context[ 'pp_define' ], list ):
+    if isinstance( context.get( 'pp_define' ), list ):
         cfg[ 'pp_define' ] = context[ 'pp_define' ]
     return cfg
 
-- 
2.43.0


From 73217deca867a19dc87998e47b1e5e6e273f0358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:54 +0000
Subject: [PATCH 40/50] fix: a text emitted more than once made the reference
 list of browsing grow without end

---
 pp/yugen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index bcc9f02..a8847ff 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3008,7 +3008,8 @@ def _plain_with_browse( node ):
 
 #   ---- list
     if isinstance( node, list ):
-        return reduce( RESULT.add_text, list( map( _plain_with_browse, node ))) if node else RESULT( '' )
+#       -- start with an empty text, since adding extends the reference list of the first operand
+        return reduce( RESULT.add_text, list( map( _plain_with_browse, node )), RESULT( '' ))
 
 #   ---- LAZY
     if isinstance( node, LAZY ):
-- 
2.43.0


From 04c9764aeb253d0d3c9ff40e915df0258c3fd8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 41/50] fix: a failed translation of a Python file was reported
 as a fault of the traceback module

---
 pylib/yutraceback3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/yutraceback3.py b/pylib/yutraceback3.py
index ce98dd2..6fb6d9f 100644
--- a/pylib/yutraceback3.py
+++ b/pylib/yutraceback3.py
@@ -13,7 +13,7 @@ import linecache
 import sys
 
 import traceback
-from traceback import FrameSummary
+from traceback import FrameSummary, print_exc
 
 import os.path
 import functools
-- 
2.43.0


From 274b3c28dbf459ffea35a08c98e4757e75c62fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 42/50] fix: translate the Python file that is read instead of
 the running script, keep its header once

---
 __init__.py | 67 +++++++++++++++++++++++++++++++++++++++--------------
 pp/yup.py   | 10 ++++++++
 2 files changed, 59 insertions(+), 18 deletions(-)

diff --git a/__init__.py b/__init__.py
index c5ccd7c..d88c241 100644
--- a/__init__.py
+++ b/__init__.py
@@ -36,28 +36,57 @@ __author_email__ = EMAIL
 __url__          = 'http://github.com/in4lio/yupp/'
 
 #   ---------------------------------------------------------------------------
-def read_header( fn ):
+def find_source( body ):
     '''
-    Read shebang and magic comment from the source file.
+    Find the file that is decoded - imported module or running script,
+    return its name and content (its header may be already read, i.e. missing from the body).
     '''
-    header = ''
-    try:
-        with open( fn, 'r' ) as f:
-            header = f.readline()
-            if 'coding:' not in header:
-                header += f.readline()
-    except:
-        pass
-    return header
+    import sys
+    from .pp.yugen import re_CODING
+
+    def _unify( data ):
+        return data.replace( b'\r\n', b'\n' ).replace( b'\r', b'\n' ).rstrip( b'\n' )
+
+    candidates = []
+    frame = sys._getframe()
+    while frame is not None:
+        if frame.f_code.co_name == 'source_to_code':
+#           -- importlib
+            candidates.append( frame.f_locals.get( 'path' ))
+        elif frame.f_code.co_name == '_get_code_from_file':
+#           -- runpy
+            candidates.append( frame.f_locals.get( 'fname' ))
+        frame = frame.f_back
+    candidates.extend( getattr( sys, 'argv', [])[ :1 ])
+
+    body = _unify( body )
+    for fn in candidates:
+        try:
+            with open( fn, 'rb' ) as f:
+                source = f.read()
+        except Exception:                                                                                              #pylint: disable=broad-except
+            continue
+
+        text = _unify( source )
+        header = text[ :( len( text ) - len( body )) ]
+        if text.endswith( body ) and ( not header
+        or header.count( b'\n' ) <= 2 and re_CODING.search( header.decode( 'latin-1' ))):
+            return fn, source
+
+    return None, None
 
 #   ---------------------------------------------------------------------------
 def decode_stream( fn, _stream ):
     from ast import parse
-    from .pp.yup import proc_stream
+    from .pp.yup import proc_stream, proc_text
     from .pylib import yutraceback
 
     try:
-        ok, code, fn_o, shrink = proc_stream( _stream, fn )
+        if fn:
+            ok, code, fn_o, shrink = proc_stream( _stream, fn )
+        else:
+#           -- file is unknown
+            ok, code = proc_text( _stream.read())
     except Exception:
         yutraceback.print_exc( None )
         ok = False
@@ -65,10 +94,11 @@ def decode_stream( fn, _stream ):
         return ''
 
 #   -- replace the filename of source file in traceback
-    yutraceback.substitution( fn, fn_o, shrink )
+    if fn:
+        yutraceback.substitution( fn, fn_o, shrink )
 #   -- check syntax of the preprocessed code
     try:
-        parse( code, fn_o )
+        parse( code, fn_o if fn else '<%s>' % __pp_name__ )
     except SyntaxError:
         yutraceback.print_exc( 0 )
         code = ''
@@ -84,11 +114,12 @@ def decoder_factory( basecodec ):
 #   -----------------------------------
     def decode( input, errors='strict' ):
         from io import StringIO
-        from sys import argv
 
         data, bytesencoded = basecodec.decode( input, errors )
-        fn = argv[ 0 ]
-        return decode_stream( fn, StringIO( read_header( fn ) + data )), bytesencoded
+        fn, source = find_source( bytes( input ))
+        if fn:
+            data = basecodec.decode( source, errors )[ 0 ]
+        return decode_stream( fn, StringIO( data )), bytesencoded
 
     return decode
 
diff --git a/pp/yup.py b/pp/yup.py
index 208eb4b..c8373fa 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -550,6 +550,16 @@ def proc_stream( _stream, fn ):
     ok, data, fn_res = _pp_stream( _stream, fn, fn_o )
     return ( ok, data, fn_res if ok else fn_o, yushell.shrink )
 
+#   ---------------------------------------------------------------------------
+def proc_text( text ):
+    """
+    Text preprocessing (for Python package).
+    """
+    _pp_configure( shell_parse_yuconfig( '' ))
+    yushell( text, None, '<stdout>.py' )
+    yuinit()
+    return _pp()
+
 #   ---------------------------------------------------------------------------
 def proc_file( fn ):
     """
-- 
2.43.0


From 9a61c99fd37b02b0a0dac30976198273e313697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 43/50] fix: the codec combined with a base encoding could not
 be found

---
 __init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/__init__.py b/__init__.py
index d88c241..ae3da96 100644
--- a/__init__.py
+++ b/__init__.py
@@ -21,7 +21,7 @@ from future import standard_library
 standard_library.install_aliases()
 
 import codecs
-from encodings import utf_8, search_function
+from encodings import search_function
 
 from .pp.yulic import VERSION, DESCRIPTION, HOLDER, EMAIL
 from .pp.yup import cli
@@ -142,12 +142,12 @@ def incremental_decoder_factory( basecodec ):
 def stream_decoder_factory( basecodec ):
 
 #   -----------------------------------
-    class StreamReader( basecodec.StreamReader ):
+    class StreamReader( basecodec.streamreader ):
 
         def __init__( self, *args, **kwargs ):
             from io import StringIO
 
-            basecodec.StreamReader.__init__( self, *args, **kwargs )
+            basecodec.streamreader.__init__( self, *args, **kwargs )
             self.stream = StringIO( decode_stream( self.stream.name, self.stream ))
 
     return StreamReader
@@ -175,15 +175,15 @@ def yupp_search_function( coding ):
             return None
 
 #       -- default encoding: UTF-8
-        basecodec = utf_8
+        basecodec = search_function( 'utf_8' )
 
     return codecs.CodecInfo(
         name=__pp_name__,
         encode=basecodec.encode,
         decode=decoder_factory( basecodec ),
-        incrementalencoder=basecodec.IncrementalEncoder,
+        incrementalencoder=basecodec.incrementalencoder,
         incrementaldecoder=incremental_decoder_factory( basecodec ),
-        streamwriter=basecodec.StreamWriter,
+        streamwriter=basecodec.streamwriter,
         streamreader=stream_decoder_factory( basecodec )
     )
 
-- 
2.43.0


From 244bda463c43af66dffe6e607e1c39cb780eeb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 44/50] fix: the stream reader of the codec failed on Python 3

---
 __init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/__init__.py b/__init__.py
index ae3da96..302578f 100644
--- a/__init__.py
+++ b/__init__.py
@@ -145,10 +145,14 @@ def stream_decoder_factory( basecodec ):
     class StreamReader( basecodec.streamreader ):
 
         def __init__( self, *args, **kwargs ):
-            from io import StringIO
+            from io import BytesIO, StringIO
 
             basecodec.streamreader.__init__( self, *args, **kwargs )
-            self.stream = StringIO( decode_stream( self.stream.name, self.stream ))
+            fn = getattr( self.stream, 'name', None )
+            data = basecodec.decode( self.stream.read())[ 0 ]
+            code = decode_stream( fn if isinstance( fn, str ) else None, StringIO( data ))
+#           -- the code is decoded again on reading
+            self.stream = BytesIO( basecodec.encode( code )[ 0 ])
 
     return StreamReader
 
-- 
2.43.0


From d0fd7e57ada61e905dc66b92bdf7dbed934bf743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 45/50] fix: line numbers of the traceback were shifted in
 files that are not translated and in modules

---
 __init__.py           | 10 ++++++----
 pylib/yutraceback3.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/__init__.py b/__init__.py
index 302578f..eba0b17 100644
--- a/__init__.py
+++ b/__init__.py
@@ -76,7 +76,7 @@ def find_source( body ):
     return None, None
 
 #   ---------------------------------------------------------------------------
-def decode_stream( fn, _stream ):
+def decode_stream( fn, _stream, partial = False ):
     from ast import parse
     from .pp.yup import proc_stream, proc_text
     from .pylib import yutraceback
@@ -95,7 +95,7 @@ def decode_stream( fn, _stream ):
 
 #   -- replace the filename of source file in traceback
     if fn:
-        yutraceback.substitution( fn, fn_o, shrink )
+        yutraceback.substitution( fn, fn_o, shrink if partial else 0 )
 #   -- check syntax of the preprocessed code
     try:
         parse( code, fn_o if fn else '<%s>' % __pp_name__ )
@@ -117,9 +117,11 @@ def decoder_factory( basecodec ):
 
         data, bytesencoded = basecodec.decode( input, errors )
         fn, source = find_source( bytes( input ))
+        partial = False
         if fn:
-            data = basecodec.decode( source, errors )[ 0 ]
-        return decode_stream( fn, StringIO( data )), bytesencoded
+            data, whole = basecodec.decode( source, errors )
+            partial = whole > bytesencoded
+        return decode_stream( fn, StringIO( data ), partial ), bytesencoded
 
     return decode
 
diff --git a/pylib/yutraceback3.py b/pylib/yutraceback3.py
index 6fb6d9f..d2bd8fc 100644
--- a/pylib/yutraceback3.py
+++ b/pylib/yutraceback3.py
@@ -19,7 +19,8 @@ import os.path
 import functools
 
 def substitution(fn, fn_o, shrink):
-    substitution.files[os.path.realpath(fn)] = (os.path.realpath(fn_o), shrink)
+#   -- lines of a header that has been read before the code are counted, the first of them is not
+    substitution.files[os.path.realpath(fn)] = (os.path.realpath(fn_o), shrink - 1 if shrink else 0)
 
 substitution.files = dict()
 
@@ -58,12 +59,13 @@ class StackSummary(list):
         for f, lineno in frame_gen:
             co = f.f_code
 #           -- filename = co.co_filename
-            if co.co_filename in substitution.files:
-                filename, shrink = substitution.files[co.co_filename]
+            source = os.path.realpath(co.co_filename)
+            if source in substitution.files:
+                filename, shrink = substitution.files[source]
             else:
                 filename = co.co_filename
                 shrink = 0
-            lineno -= shrink - 1
+            lineno -= shrink
             if lineno < 1: lineno = 1
 #           --
             name = co.co_name
-- 
2.43.0


From 9e93c1d1f51fcf5b6887e8792d46bf2693f41916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 46/50] fix: base encoding was cut from a wrong place of a
 magic comment

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index a8847ff..fdadecb 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -1517,7 +1517,7 @@ def ps_header_python( sou, depth = 0 ):
                     return ( rest, header )
 
 #               -- delete 'yupp.' from a magic comment
-                i = leg.find( ps_CODING )
+                i = mch.start( 1 ) + 1 - l_CODING
                 header.extend(( REMARK( leg[ :i ]), REMARK( leg[( i + l_CODING ): ])))
                 return ( rest, header )
 
-- 
2.43.0


From 9b85344dfa685555374bc26983f3959134968157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:41 +0000
Subject: [PATCH 47/50] fix: a name of the caller was taken for a late bound
 name of a function

---
 pp/yugen.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index fdadecb..64c0e09 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2532,9 +2532,11 @@ class ENV( dict ):
     AST: ENV( ENV, [ ( var, value ) ])
     """
 #   -----------------------------------
-    def __init__( self, parent = None, local = None ):
+    def __init__( self, parent = None, local = None, late = False ):
         dict.__init__( self )
         self.parent = parent
+#       -- names of a late bound parameter
+        self.late = late
         self.order = []
         if local:
             for key, value in local:
@@ -2577,11 +2579,16 @@ class ENV( dict ):
             yield key, self.__getitem__( key )
 
 #   -----------------------------------
-    def lookup( self, reg, var ):                                                                                      #pylint: disable=unused-argument
-        del reg
+    def lookup( self, reg, var ):
+        if isinstance( reg, LATE_BOUND ):
+            late = ( True, )
+        elif '-' not in var:
+            late = ( False, )
+        else:
+            late = ( True, False )
         env = self
         while env is not None:
-            if env.__contains__( var ):
+            if env.late in late and env.__contains__( var ):
                 return env.__getitem__( var )
 
             env = env.parent
@@ -2621,7 +2628,7 @@ class ENV( dict ):
 #   -----------------------------------
     def __deepcopy__( self, memo = None ):
         return ENV( copy.deepcopy( self.parent, memo )
-        , [( key, copy.deepcopy( self.__getitem__( key ), memo )) for key in self.order ])
+        , [( key, copy.deepcopy( self.__getitem__( key ), memo )) for key in self.order ], self.late )
 
 #   -----------------------------------
 #   -- debug message
@@ -3381,7 +3388,7 @@ def yueval( node, env = ENV(), depth = 0 ):
                         val = yueval( node.fn.default[ var ], env, depth + 1 )
 #                   -- late bound -- second yueval()
                     if var in node.fn.late:
-                        val = yueval( L_CLOSURE( val, ENV( None, node.fn.late[ var ])), env, depth + 1 )
+                        val = yueval( L_CLOSURE( val, ENV( None, node.fn.late[ var ], True )), env, depth + 1 )
                     node.fn.env[ var ] = val
 #                   -- have no more arguments and default
                     if not node.named and not node.args and node.fn.env.unassigned() not in node.fn.default:
@@ -3475,9 +3482,8 @@ def yueval( node, env = ENV(), depth = 0 ):
                         if node.atom in builtin_special:
                             return BUILTIN_SPECIAL( node.atom, builtin_special[ node.atom ])
 
-#                       -- if not valid C identifier mark as LATE_BOUND
+#                       -- if not valid C identifier it can be a late bound
                         if not node.atom.is_valid_c_id():
-                            node.reg = LATE_BOUND()
 #                           -- irreducible
                             return node
 
-- 
2.43.0


From defb59fac5d46469693d126ecca622f754716416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:30 +0000
Subject: [PATCH 48/50] fix: the report of a failed translation grew
 exponentially with the number of definitions

---
 pp/yugen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 64c0e09..818728c 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2618,7 +2618,9 @@ class ENV( dict ):
 
 #   -----------------------------------
     def __repr__( self ):
-        return '%s(%s, %s)' % ( self.__class__.__name__, dict.__repr__( self ), repr( self.parent ))
+#       -- only names of the parent, its values hold environments in their turn
+        return '%s(%s, %s)' % ( self.__class__.__name__, dict.__repr__( self )
+        , None if self.parent is None else self.parent._keylist())
 
 #   -----------------------------------
     def __eq__( self, other ):
-- 
2.43.0


From c7755aa68b05ca1f5f90b709611b550f3683e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 49/50] fix: two coro-quit in one coroutine defined one label
 twice

---
 lib/coroutine.yu | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/coroutine.yu b/lib/coroutine.yu
index be885d4..8aa2a86 100644
--- a/lib/coroutine.yu
+++ b/lib/coroutine.yu
@@ -102,6 +102,7 @@ enum {
 
 ($macro coro-quit ()($do ]
 	/* quit */
+	($set __label (L__($emit __label_iter inc)))
 	*co_p = &&($__label);
 
 	($__label):
-- 
2.43.0


From 0bbeb7bba14d7507ca3490afad4272e2519f14ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:14 +0000
Subject: [PATCH 50/50] fix: unq spoiled the characters above 7F of a text
 without quotes

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 818728c..1b4303a 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -857,7 +857,7 @@ def _unq( st ):
 
                 return result
 
-            result = codecs.unicode_escape_decode( st )[ 0 ]
+            result = codecs.unicode_escape_decode( st.encode( 'latin-1', 'backslashreplace' ))[ 0 ]
             if isinstance( st, STR ):
                 return STR( result, st.input_file, st.pos )
 
-- 
2.43.0

