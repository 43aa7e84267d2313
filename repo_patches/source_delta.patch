From d464782b27e1fa4956b2dedfe34bdf9312e25cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 01/38] fix: parse the text after a production that ends at the
 end of file

ps_text() compared the rest of the source with an empty string on its first
pass, so '($ [($b)' resumed a generator that was never created.
---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 446cb7c..2444c99 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -995,7 +995,7 @@ def ps_text( sou, depth = 0 ):
 #   ---------------
     ast = []
     depth_pth_sq = depth_pth = 0
-    _plain_ret = ''
+    _plain_ret = None
     while True:
         trace__ps_( 'ps_text', sou, depth )
 #   ---- set
-- 
2.43.0


From 8c3b8c68a4a2de254a742bf657d99d9b2f9d64e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 02/38] fix: convert every integer literal the grammar accepts

'010' (octal of C), '0xFFLL' (double suffix) and a sign separated by a blank
matched re_INT, but int() refused them.
---
 pp/yugen.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 2444c99..5a8c2a8 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2193,16 +2193,18 @@ def ps_number( sou, depth = 0 ):
 #   ---- float
     mch = re_FLOAT.match( sou )
     if mch:
-        leg = mch.group( 0 )
+#       -- the sign can be separated
+        leg = mch.group( 0 ).replace( ' ', '' )
         return ( sou[ mch.end(): ], FLOAT( leg ))
 
 #   ---- integer
     mch = re_INT.match( sou )
     if mch:
-        leg = mch.group( 0 )
-        if leg[ -1 ] in [ 'l', 'L' ]:
-            leg = leg[ :-1 ]
-        return ( sou[ mch.end(): ], INT( leg, 0 ))
+#       -- the sign can be separated, the suffix can be double
+        leg = mch.group( 0 ).replace( ' ', '' ).replace( '\t', '' ).rstrip( 'lL' )
+#       -- leading zero means octal (C)
+        digits = leg.lstrip( '+-' )
+        return ( sou[ mch.end(): ], INT( leg, 8 if digits.isdigit() and digits[ 0 ] == '0' else 0 ))
 
     return ( sou, None )
 
-- 
2.43.0


From 9dc1ebeb65186cfaeb357643c821c204b9f0c376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 03/38] fix: do not keep the values seen by 'unique' between
 its calls

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 5a8c2a8..fb10b29 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2782,7 +2782,7 @@ builtin.update({
     'sum': sum,
     'TAB': lambda : STEADY_TAB,
     'typeof': lambda val : ATOM( val.__class__.__name__ ),
-    'unique': lambda l, s=set() : LIST( x for x in l if not ( x in s or s.add( x ))),
+    'unique': lambda l : ( lambda s : LIST( x for x in l if not ( x in s or s.add( x ))))( set()),
     'unq': _unq,
 })
 
-- 
2.43.0


From b37e45b345696863df5fd64c6e737d8137fb5ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 04/38] fix: keep the location of C string and character
 literals

---
 pp/yugen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index fb10b29..6597979 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2062,13 +2062,13 @@ def ps_quote( sou, depth = 0 ):
 #   ---- C string
         mch = re_STR.match( sou )
         if mch:
-            leg = mch.group( 0 )
+            leg = sou[ :mch.end() ]
             return ( sou[ mch.end(): ], STR( leg ))
 
 #   ---- chr
         mch = re_CHR.match( sou )
         if mch:
-            leg = mch.group( 0 )
+            leg = sou[ :mch.end() ]
             return ( sou[ mch.end(): ], STR( leg ))
 
 #   ---- (` | ($quote
-- 
2.43.0


From bfab8a02967769b3a80c5fc2427c77923cf464ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 05/38] fix: report a forbidden character at its own location

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 6597979..f2389ef 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -1531,7 +1531,7 @@ def ps_plain( sou, pth_sq, pth, indent, depth = 0 ):
             raise EOFError( '%s: unexpected EOF:' % ( callee()))
 
         if symbol not in ps_ANY:
-            raise SyntaxError( '%s: forbidden character' % ( callee()) + sou.loc())
+            raise SyntaxError( '%s: forbidden character' % ( callee()) + sou[ i: ].loc())
 
 #   ---- [switch ...
         if symbol == ord( '[' ):
-- 
2.43.0


From 43c703e89ad8a583e01c8a7082fffcb8950f83fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 06/38] fix: count the line of a diagnostic by line ends

splitlines() drops the empty line being pointed at (giving the previous line
or 'line 0'), and splits at characters that do not end a line.
---
 pp/yugen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index f2389ef..1af6a5b 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -233,9 +233,9 @@ def _loc( input_file, pos, pointer = True ):
     eol = sou.find( EOL, pos )
     if eol == -1:
         eol = len( sou )
-    lnlist = sou[ :eol ].splitlines()
+    lnlist = sou[ :eol ].split( EOL )
     result += fmt % ( decl, len( lnlist ))
-    ln = lnlist[ -1 ].lstrip() if lnlist else '<not found>'
+    ln = lnlist[ -1 ].lstrip()
     result += LOC_LINE % ( ln )
     if pointer:
 #       -- pointer to target
-- 
2.43.0


From 42716027456cdf1a8952e22f40a54a763b860a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 07/38] fix: return the status of the run from every entry
 point

---
 __main__.py    | 4 ++--
 pp/__main__.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/__main__.py b/__main__.py
index bb3893c..1850ffa 100644
--- a/__main__.py
+++ b/__main__.py
@@ -21,8 +21,8 @@ from .pp.yup import cli
 
 #   ---------------------------------------------------------------------------
 def main():
-    cli( sys.argv[ 1: ])
+    return cli( sys.argv[ 1: ])
 
 #   ---------------------------------------------------------------------------
 if __name__ == '__main__':
-    main()
+    sys.exit( main())
diff --git a/pp/__main__.py b/pp/__main__.py
index 5451dce..82903da 100644
--- a/pp/__main__.py
+++ b/pp/__main__.py
@@ -2,4 +2,4 @@ import sys
 from .yup import cli
 
 if __name__ == '__main__':
-    cli( sys.argv[ 1: ])
+    sys.exit( cli( sys.argv[ 1: ]))
-- 
2.43.0


From 0910cd3d17e8aa568f8e258247e18233b2f96f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 08/38] fix: keep the line number of the frames that are not
 substituted

---
 pylib/yutraceback3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/yutraceback3.py b/pylib/yutraceback3.py
index ce98dd2..b2c8202 100644
--- a/pylib/yutraceback3.py
+++ b/pylib/yutraceback3.py
@@ -62,7 +62,7 @@ class StackSummary(list):
                 filename, shrink = substitution.files[co.co_filename]
             else:
                 filename = co.co_filename
-                shrink = 0
+                shrink = 1
             lineno -= shrink - 1
             if lineno < 1: lineno = 1
 #           --
-- 
2.43.0


From 4cdf9760c627de4ae3fbe824d26ceb9a7c8afcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 09/38] fix: cut 'yupp.' out of the magic comment where it was
 matched

The match ignores the letter case and is not always the first 'yupp.' of
the comment.
---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 1af6a5b..0ee927d 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -1491,7 +1491,7 @@ def ps_header_python( sou, depth = 0 ):
                     return ( rest, header )
 
 #               -- delete 'yupp.' from a magic comment
-                i = leg.find( ps_CODING )
+                i = mch.start( 1 ) + 1 - l_CODING
                 header.extend(( REMARK( leg[ :i ]), REMARK( leg[( i + l_CODING ): ])))
                 return ( rest, header )
 
-- 
2.43.0


From c71b20257c3f6458562bd1f04442846a35236575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 10/38] fix: recognise a magic comment written as 'coding=yupp'

The number of the removed lines of a reused output file was wrong for it.
---
 __init__.py | 2 +-
 pp/yup.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/__init__.py b/__init__.py
index c5ccd7c..890fd62 100644
--- a/__init__.py
+++ b/__init__.py
@@ -44,7 +44,7 @@ def read_header( fn ):
     try:
         with open( fn, 'r' ) as f:
             header = f.readline()
-            if 'coding:' not in header:
+            if 'coding:' not in header and 'coding=' not in header:
                 header += f.readline()
     except:
         pass
diff --git a/pp/yup.py b/pp/yup.py
index cd3f586..9f467af 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -35,7 +35,7 @@ except:
 
 from .yugen import log, trace
 from .yugen import config, feedback, yushell, yuinit, yuparse, yueval, RESULT
-from .yugen import make_ast_readable, reduce_emptiness, replace_steady
+from .yugen import make_ast_readable, reduce_emptiness, replace_steady, re_CODING
 
 from .yulic import *                                                                                                    #pylint: disable=wildcard-import
 from .yuconfig import *                                                                                                 #pylint: disable=wildcard-import,unused-wildcard-import
@@ -533,7 +533,7 @@ def proc_stream( _stream, fn ):
                     data = f.read()
 
                 # print( 'skipped yupp running' )
-                return ( True, data, fn_o, 1 if 'coding:' in _stream.readline() else 2 )
+                return ( True, data, fn_o, 1 if re_CODING.search( _stream.readline()) else 2 )
 
         except:                                                                                                        #pylint: disable=bare-except
 #           -- process input file in the usual way
-- 
2.43.0


From 519054e043b9c5c872e61b344fbefec0d122198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 11/38] fix: parse a source that ends right after its magic
 comment

---
 pp/yugen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 0ee927d..6f27ad2 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -562,8 +562,7 @@ class TEXT( BASE_OBJECT ):
 
 #   -----------------------------------
     def extend_text( self, pos, lst ):
-        if self.ast:
-            self.ast[ pos:pos ] = lst
+        self.ast[ pos:pos ] = lst
 
 #   ---------------------------------------------------------------------------
 class VAR( BASE_OBJECT ):
@@ -955,6 +954,7 @@ def yuparse( input_file ):
             ( sou, header ) = ps_header_python( sou, 0 )
 
 #   ---- text
+        ast = TEXT([])
         text = ps_text( sou, 0 )
         while sou:
             ( sou, ast ) = next( text )
-- 
2.43.0


From 1ae2f685fd989257d445b630ea0e7d07370e03a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 12/38] fix: leave the characters that are not line ends to the
 blank-line reduction

---
 pp/yugen.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 6f27ad2..0f1f9bc 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3887,7 +3887,12 @@ def reduce_emptiness( text ):
 
     _filter.empty = False
 
-    return '\n'.join([ x.rstrip() for x in text.splitlines() if _filter( x )]) + '\n'
+#   -- unlike splitlines() do not split at the characters that are not EOL
+    lnlist = text.split( EOL )
+    if not lnlist[ -1 ]:
+        lnlist.pop()
+
+    return '\n'.join([ x.rstrip() for x in lnlist if _filter( x )]) + '\n'
 
 #   ---------------------------------------------------------------------------
 def replace_steady( text ):
-- 
2.43.0


From 0441d7a3673523716f3801b6524b21548706cd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 13/38] fix: do not keep imported names and constants for the
 next source file

---
 pp/yugen.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index 0f1f9bc..8fc1735 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2786,8 +2786,13 @@ builtin.update({
     'unq': _unq,
 })
 
+_builtin_initial = dict( builtin )
+
 #   ---------------------------------------------------------------------------
 def _update_builtin_from_config():
+#   -- drop what the previous source file imported or defined
+    builtin.clear()
+    builtin.update( _builtin_initial )
     for x in config.pp_define:
         pair = x.split( ':', 1 )
         rest, atom = ps_atom( pair[ 0 ].strip())
-- 
2.43.0


From 46c38804c2c93f2a3190b046e29cd9bbefe8c74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 14/38] fix: do not report success when the output file is not
 written

---
 pp/yup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pp/yup.py b/pp/yup.py
index 9f467af..aec90cd 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -429,6 +429,7 @@ def _pp_stream( _stream, fn, fn_o ):
     except IOError as e:
 #       -- e.g. file operation failure
         log.critical( FAIL, type( e ).__name__, str( e ))
+        ok, plain = False, None
 
     return ( ok, plain, fn_o )
 
-- 
2.43.0


From d9ed936f2da854f3ff4429a33c9823a6f1445343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 15/38] fix: report a library that cannot be decoded as a
 failed import

---
 pp/yugen.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 8fc1735..c875177 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -862,6 +862,15 @@ def _unq( st ):
 def _unify_eol( st ):
     return st.replace( '\r\n', EOL ).replace( '\r', EOL )
 
+#   ---------------------------------------------------------------------------
+def _raise_import( e_type, message, tb ):
+#   -- some exceptions can't be created with a message only (e.g. UnicodeDecodeError)
+    try:
+        e_type( message )
+    except:                                                                                                            #pylint: disable=bare-except
+        e_type = ValueError if issubclass( e_type, ValueError ) else RuntimeError
+    raise_( e_type, message, tb )
+
 #   ---------------------------------------------------------------------------
 def _import_source( lib, once ):
 #   -- prevent libraries re-import
@@ -880,7 +889,7 @@ def _import_source( lib, once ):
             sou = _unify_eol( f.read())
     except:
         e_type, e, tb = sys.exc_info()
-        raise_( e_type, 'ps_import: %s' % ( e ) + lib.loc(), tb )
+        _raise_import( e_type, 'ps_import: %s' % ( e ) + lib.loc(), tb )
 
     yushell.source[ lib ] = ( lpath, sou )
     return lib
@@ -903,7 +912,7 @@ def _import_python( name, script ):
         builtin.update( vars( mod ))
     except:
         e_type, e, tb = sys.exc_info()
-        raise_( e_type, 'ps_import_python: %s' % ( e ) + script.loc(), tb )
+        _raise_import( e_type, 'ps_import_python: %s' % ( e ) + script.loc(), tb )
 
     yushell.script.append( script )
 
@@ -914,7 +923,7 @@ def _import_eval( infix ):
         sou = str( eval( code, dict( globals(), **builtin )))                                                                #pylint: disable=eval-used
     except:
         e_type, e, tb = sys.exc_info()
-        raise_( e_type, 'ps_import_eval: %s' % ( e ) + infix.loc(), tb )
+        _raise_import( e_type, 'ps_import_eval: %s' % ( e ) + infix.loc(), tb )
 
     yushell.inclusion.append( None )
     _import = str( len( yushell.inclusion ) - 1 )
-- 
2.43.0


From 16b3675e7d32216f2134dcc7c2aebd31f2b823db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:59 +0000
Subject: [PATCH 16/38] fix: take the parts of the base codec by the names they
 have in CodecInfo

---
 __init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/__init__.py b/__init__.py
index 890fd62..ea5641b 100644
--- a/__init__.py
+++ b/__init__.py
@@ -111,12 +111,12 @@ def incremental_decoder_factory( basecodec ):
 def stream_decoder_factory( basecodec ):
 
 #   -----------------------------------
-    class StreamReader( basecodec.StreamReader ):
+    class StreamReader( basecodec.streamreader ):
 
         def __init__( self, *args, **kwargs ):
             from io import StringIO
 
-            basecodec.StreamReader.__init__( self, *args, **kwargs )
+            basecodec.streamreader.__init__( self, *args, **kwargs )
             self.stream = StringIO( decode_stream( self.stream.name, self.stream ))
 
     return StreamReader
@@ -144,15 +144,15 @@ def yupp_search_function( coding ):
             return None
 
 #       -- default encoding: UTF-8
-        basecodec = utf_8
+        basecodec = utf_8.getregentry()
 
     return codecs.CodecInfo(
         name=__pp_name__,
         encode=basecodec.encode,
         decode=decoder_factory( basecodec ),
-        incrementalencoder=basecodec.IncrementalEncoder,
+        incrementalencoder=basecodec.incrementalencoder,
         incrementaldecoder=incremental_decoder_factory( basecodec ),
-        streamwriter=basecodec.StreamWriter,
+        streamwriter=basecodec.streamwriter,
         streamreader=stream_decoder_factory( basecodec )
     )
 
-- 
2.43.0


From 7141873500c6d94c9261970eaf696cbfda6edb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:21 +0000
Subject: [PATCH 17/38] fix: provide print_exc to the codec under Python 3

---
 pylib/yutraceback3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/yutraceback3.py b/pylib/yutraceback3.py
index b2c8202..362bc26 100644
--- a/pylib/yutraceback3.py
+++ b/pylib/yutraceback3.py
@@ -13,7 +13,7 @@ import linecache
 import sys
 
 import traceback
-from traceback import FrameSummary
+from traceback import FrameSummary, print_exc
 
 import os.path
 import functools
-- 
2.43.0


From b0dc39a3d031d2a851a48308f35a39529faec7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:46 +0000
Subject: [PATCH 18/38] fix: count a file that cannot be decoded or encoded as
 failed

---
 pp/yup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index aec90cd..3f32037 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -426,8 +426,8 @@ def _pp_stream( _stream, fn, fn_o ):
                 shell_savetofile( fn_o, plain )
                 log.warn( 'result was saved as AST file' )
 
-    except IOError as e:
-#       -- e.g. file operation failure
+    except ( IOError, UnicodeError ) as e:
+#       -- e.g. file operation failure, or a text that can't be decoded
         log.critical( FAIL, type( e ).__name__, str( e ))
         ok, plain = False, None
 
-- 
2.43.0


From 7d8dc52fc9cf8c04ff59e8932efd31c5ad220760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:50 +0000
Subject: [PATCH 19/38] fix: do not save AST over the output file

---
 pp/yup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pp/yup.py b/pp/yup.py
index 3f32037..6e502e8 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -421,7 +421,9 @@ def _pp_stream( _stream, fn, fn_o ):
         else:
             if plain:
 #               -- plain contains AST
-                fn_o = os.path.splitext( fn_o )[ 0 ] + E_AST
+                fn_ast = os.path.splitext( fn_o )[ 0 ] + E_AST
+#               -- leave an existing output file untouched
+                fn_o = fn_ast if fn_ast != fn_o else fn_o + E_AST
 #               -- output file writing
                 shell_savetofile( fn_o, plain )
                 log.warn( 'result was saved as AST file' )
-- 
2.43.0


From f736a60c56889c145e43712807293480c42d0771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 20/38] fix: name the output after the options of the file are
 in force

The output directory of an earlier run in the same process was still used.
---
 pp/yup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index 6e502e8..37e7fe6 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -518,11 +518,11 @@ def proc_stream( _stream, fn ):
     """
 #   -- read shebang and magic comment again
     _stream.seek( 0 )
-#   -- figure out a name for output file
-    fn_o = _output_fn( fn )
 
     cfg = shell_parse_yuconfig( fn )
     _pp_configure( cfg )
+#   -- figure out a name for output file
+    fn_o = _output_fn( fn )
 #   -- check that we can skip re-preprocessing
     if not cfg.get( 'force', False ) and os.path.isfile( fn_o ):
         try:
-- 
2.43.0


From 006093d839b9dfa947e4d04f980fd435232ec139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:43 +0000
Subject: [PATCH 21/38] fix: count the removed header lines of a reused output
 as preprocessing does

They were counted for sources without a magic comment and for outputs that are
not in Python, where no line is removed.
---
 pp/yup.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index 37e7fe6..7173f62 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -35,7 +35,7 @@ except:
 
 from .yugen import log, trace
 from .yugen import config, feedback, yushell, yuinit, yuparse, yueval, RESULT
-from .yugen import make_ast_readable, reduce_emptiness, replace_steady, re_CODING
+from .yugen import make_ast_readable, reduce_emptiness, replace_steady, SOURCE, ps_header_python
 
 from .yulic import *                                                                                                    #pylint: disable=wildcard-import
 from .yuconfig import *                                                                                                 #pylint: disable=wildcard-import,unused-wildcard-import
@@ -511,6 +511,16 @@ def _getmtime( fn ):
         log.warn( 'unable to check dependency\n%s: %s', type( e ).__name__, str( e ))
         raise
 
+#   ---------------------------------------------------------------------------
+def _header_shrink( text, fn, fn_o ):
+    """
+    Number of header lines which are deleted by preprocessing.
+    """
+    yushell( text, fn, fn_o )
+    if yushell.output_python:
+        ps_header_python( SOURCE( yushell.source[ yushell.input_file ][ 1 ], yushell.input_file ))
+    return yushell.shrink
+
 #   ---------------------------------------------------------------------------
 def proc_stream( _stream, fn ):
     """
@@ -536,11 +546,11 @@ def proc_stream( _stream, fn ):
                     data = f.read()
 
                 # print( 'skipped yupp running' )
-                return ( True, data, fn_o, 1 if re_CODING.search( _stream.readline()) else 2 )
+                return ( True, data, fn_o, _header_shrink( _stream.read(), fn, fn_o ))
 
         except:                                                                                                        #pylint: disable=bare-except
 #           -- process input file in the usual way
-            pass
+            _stream.seek( 0 )
 
     ok, data, _ = _pp_stream( _stream, fn, fn_o )
     return ( ok, data, fn_o, yushell.shrink )
-- 
2.43.0


From fcf0ef84f90d4a242b2c9550cf97415595086f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:43 +0000
Subject: [PATCH 22/38] fix: read a reused output in the encoding it is saved
 in

---
 pp/yup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yup.py b/pp/yup.py
index 7173f62..2fc5b9f 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -542,7 +542,7 @@ def proc_stream( _stream, fn ):
 #           -- if sources of dependencies are not changed...
             if all( _getmtime( d ) < t for d in deps ):
 #               -- ...just read output file
-                with open( fn_o, 'r' ) as f:
+                with open( fn_o, 'r', encoding='utf8' ) as f:
                     data = f.read()
 
                 # print( 'skipped yupp running' )
-- 
2.43.0


From 1eb54e3fa306908679e567f44057337e0fc680cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:55 +0000
Subject: [PATCH 23/38] fix: take an option deleted by a configuration script
 as not given

The KeyError ended the run.
---
 pp/yup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index 2fc5b9f..62f973a 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -199,11 +199,11 @@ def shell_parse_yuconfig( fn ):
 #   -- configuration for concrete source file
     _exec_yuconfig_script( os.path.splitext( fn )[ 0 ] + E_YUCFG, context )
     cfg = { k: val for k, val in list( context.items()) if isinstance( val, yuconfig_types )}
-    if isinstance( context[ 'directory' ], list ):
+    if isinstance( context.get( 'directory' ), list ):
         cfg[ 'directory' ] = context[ 'directory' ]
-    if isinstance( context[ 'dependency' ], list ):
+    if isinstance( context.get( 'dependency' ), list ):
         cfg[ 'dependency' ] = context[ 'dependency' ]
-    if isinstance( context[ 'pp_define' ], list ):
+    if isinstance( context.get( 'pp_define' ), list ):
         cfg[ 'pp_define' ] = context[ 'pp_define' ]
     return cfg
 
-- 
2.43.0


From fbfd081d51f53e1f4845fcac87cee4042ec70c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:35 +0000
Subject: [PATCH 24/38] fix: ignore a number given for an option that is a list

'directory = 5' in a configuration script ended the run with a TypeError.
---
 pp/yup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pp/yup.py b/pp/yup.py
index 62f973a..58a064d 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -198,7 +198,8 @@ def shell_parse_yuconfig( fn ):
     _exec_yuconfig_script( '' + E_YUCFG, context )
 #   -- configuration for concrete source file
     _exec_yuconfig_script( os.path.splitext( fn )[ 0 ] + E_YUCFG, context )
-    cfg = { k: val for k, val in list( context.items()) if isinstance( val, yuconfig_types )}
+    cfg = { k: val for k, val in list( context.items()) if isinstance( val, yuconfig_types )
+            and k not in ( 'directory', 'dependency', 'pp_define' )}
     if isinstance( context.get( 'directory' ), list ):
         cfg[ 'directory' ] = context[ 'directory' ]
     if isinstance( context.get( 'dependency' ), list ):
-- 
2.43.0


From 87cd0c833fcc72e78c233f821d0ed7558554f3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:03 +0000
Subject: [PATCH 25/38] fix: do not take the options of an earlier run for the
 defaults

--quiet, --no-read-only and --type-file stayed on for later runs in the process.
---
 pp/yup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index 58a064d..a61ab40 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -113,13 +113,13 @@ def shell_parse_cli_arguments( arglist ):
     )
     argp.add_argument( '--version', action = 'version', version = '%(app)s %(version)s' % { 'app': APP, 'version': VERSION })
     argp.add_argument( 'files', metavar = 'FILE', type = str, nargs = '*', help = "an input file" )
-    argp.add_argument( '-q', '--quiet', action = 'store_true', dest = 'quiet', default = shell.quiet
+    argp.add_argument( '-q', '--quiet', action = 'store_true', dest = 'quiet', default = QUIET
     , help = QUIET_HELP )
     argp.add_argument( '-d', action = 'append', metavar = 'DIR', dest = 'directory'
     , help = "an import directory" )
     argp.add_argument( '-o', '--output', metavar = 'DIR', dest = 'output_dir', default = ''
     , help = "an output directory" )
-    argp.add_argument( '--no-read-only', action = 'store_false', dest = 'read_only', default = shell.read_only
+    argp.add_argument( '--no-read-only', action = 'store_false', dest = 'read_only', default = READ_ONLY
     , help = READ_ONLY_HELP )
 #   -- preprocessor options
     argp.add_argument( '--pp-skip-comments', metavar = 'TYPE', type = int, dest = 'pp_skip_comments'
@@ -149,7 +149,7 @@ def shell_parse_cli_arguments( arglist ):
     argp.add_argument( '-b', '--traceback', metavar = 'TYPE', type = int, dest = 'traceback'
     , default = TRACEBACK, choices = list( range( 0, 3 ))
     , help = TRACEBACK_HELP )
-    argp.add_argument( '--type-file', action = 'store_true', dest = 'type_output', default = shell.type_output
+    argp.add_argument( '--type-file', action = 'store_true', dest = 'type_output', default = TYPE_OUTPUT
     , help = TYPE_OUTPUT_HELP )
     argp.add_argument( '-i', '--input', metavar = 'TEXT', type = str, dest = 'text', default = ''
     , help = "an input text (used by Web Console)" )
-- 
2.43.0


From 3f442e7535f5d356f1f13c323c7bfe4963607012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:54 +0000
Subject: [PATCH 26/38] fix: find the generated file of a source reached
 through a link

The table holds real paths, the frames do not.
---
 pylib/yutraceback3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylib/yutraceback3.py b/pylib/yutraceback3.py
index 362bc26..f148de4 100644
--- a/pylib/yutraceback3.py
+++ b/pylib/yutraceback3.py
@@ -58,8 +58,9 @@ class StackSummary(list):
         for f, lineno in frame_gen:
             co = f.f_code
 #           -- filename = co.co_filename
-            if co.co_filename in substitution.files:
-                filename, shrink = substitution.files[co.co_filename]
+            source = os.path.realpath(co.co_filename)
+            if source in substitution.files:
+                filename, shrink = substitution.files[source]
             else:
                 filename = co.co_filename
                 shrink = 1
-- 
2.43.0


From 48df9de5a93cf8b7947f01f5d0917fcf2a96f2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 27/38] fix: a list as an argument of a macro is put back as a
 list

---
 pp/yugen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index c875177..813d674 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2824,7 +2824,10 @@ builtin_special.update({
 
 #   ---------------------------------------------------------------------------
 def _plain_back( st ):
-    return '()' if st == [] else str( st )
+    if isinstance( st, list ):
+        return '(' + ' '.join( _plain_back( x ) for x in st ) + ')'
+
+    return str( st )
 
 #   ---------------------------------------------------------------------------
 def _is_term( node ):                                                                                                  #pylint: disable=too-many-return-statements
-- 
2.43.0


From cbcc528a1ef45f60b57bcc32033bcde1261f35a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 28/38] fix: remove the repeated lists of a list

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 813d674..8574768 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2791,7 +2791,7 @@ builtin.update({
     'sum': sum,
     'TAB': lambda : STEADY_TAB,
     'typeof': lambda val : ATOM( val.__class__.__name__ ),
-    'unique': lambda l : ( lambda s : LIST( x for x in l if not ( x in s or s.add( x ))))( set()),
+    'unique': lambda l : LIST( x for i, x in enumerate( l ) if x not in l[ :i ]),
     'unq': _unq,
 })
 
-- 
2.43.0


From c2553508b00a005811cb9e7116efb6c6ff9f9fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 29/38] fix: the only bound of a slice is the start of it

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 8574768..aada3c0 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2762,7 +2762,7 @@ builtin.update({
     'crc32': lambda val : ( zlib.crc32( bytes( val, 'utf8' )) & 0xffffffff ),
     'dec': lambda val : ( val - 1 ),
     'div': operator.truediv,
-    'getslice': lambda l, *sl : l[ slice( *( None if x == '' else x for x in sl ))],
+    'getslice': lambda l, start, *sl : l[ slice( *( None if x == '' else x for x in (( start, ) + ( sl or ( None, )))))],
     'hex': hex,
     'inc': lambda val : ( val + 1 ),
 # -- redefine
-- 
2.43.0


From bb88d0d08107b175b8c787f630cbb54915419e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:58 +0000
Subject: [PATCH 30/38] fix: leave the characters that are not line ends to
 re-indentation

---
 pp/yugen.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index aada3c0..f044e5c 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -357,10 +357,7 @@ class PLAIN( BASE_STR ):
 #   -----------------------------------
     def add_indent( self, indent ):
         if self.indent is not None:
-            ln = self.splitlines( True )
-            if ord( self[ -1 ]) in ps_EOL:
-                ln.append( '' )
-            return PLAIN( indent.join( ln )
+            return PLAIN( str.replace( self, EOL, EOL + indent )
             , ( indent + self.indent ) if isinstance( self.indent, str ) else self.indent, self.trim )
 
         return self
@@ -2388,6 +2385,16 @@ def _bisect( a, x, lo = 0 ):
             lo = mid + 1
     return lo
 
+#   ---------------------------------------------------------------------------
+def _split_lines( text ):
+    """
+    Unlike splitlines() do not split at the characters that are not EOL.
+    """
+#   ---------------
+    lnlist = [ x + EOL for x in str( text ).split( EOL )]
+    last = lnlist.pop()[ :-len( EOL )]
+    return lnlist + [ last ] if last else lnlist
+
 #   ---------------------------------------------------------------------------
 def _merge_offset( p_offset, offset ):
     result = []
@@ -2425,14 +2432,14 @@ class TRIM( BASE_OBJECT, CAPTION ):
         if not plain or not config.pp_trim_app_indent:
             return plain
 
-        return self.indent.join( dedent( plain ).splitlines( True ))
+        return self.indent.join( _split_lines( dedent( plain )))
 
 #   -----------------------------------
     def trim_with_browse( self, plain ):
         if not plain or not config.pp_trim_app_indent:
             return plain
 
-        lnlist = plain.splitlines( True )
+        lnlist = _split_lines( plain )
 
 #       -- find shared indent, mark empty lines
         cutting = ''
@@ -3848,7 +3855,7 @@ def reduce_emptiness( text ):
         return text
 
     if isinstance( text, RESULT ):
-        lnlist = text.splitlines( True )
+        lnlist = _split_lines( text )
 
 #       -- find empty lines
         empty = set()
-- 
2.43.0


From fd759fb3679d4b663d616c12a4db32ee06b31c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:01 +0000
Subject: [PATCH 31/38] fix: re-indent the same way with browse information

---
 pp/yugen.py | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index f044e5c..733e7c7 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2441,40 +2441,26 @@ class TRIM( BASE_OBJECT, CAPTION ):
 
         lnlist = _split_lines( plain )
 
+#       -- as dedent() does, drop spacing at the end that is not a line
+        tail = ''
+        if lnlist and ps_space( lnlist[ -1 ])[ 0 ] == '':
+            tail = lnlist.pop()
+
 #       -- find shared indent, mark empty lines
-        cutting = ''
+        shared = []
         empty = set()
         for i, ln in enumerate( lnlist ):
             ( rest, indent ) = ps_space( ln )
             if rest == EOL:
 #               -- skip empty line
                 empty.add( i )
-                continue
-
-            if cutting is None:
-#               -- no common indent
-                continue
-
-            if indent is None:
-#               -- no indent
-                cutting = None
-                continue
-
-            if not cutting:
-#               -- first not empty line
-                cutting = indent
-            elif indent.startswith( cutting ):
-#               -- line more deeply indented
-                pass
-            elif cutting.startswith( indent ):
-#               -- line less deeply indented
-                cutting = indent
             else:
-#               -- no common indent
-                cutting = None
+                shared.append( indent or '' )
+
+        cutting = os.path.commonprefix( shared )
 
 #       -- remove shared indent, add specified indent
-        c = len( cutting ) if cutting is not None else 0
+        c = len( cutting )
         result = ''
         for i, ln in enumerate( lnlist ):
             result += ln if i in empty else (( self.indent if i else '' ) + ln[ c: ])
@@ -2500,6 +2486,9 @@ class TRIM( BASE_OBJECT, CAPTION ):
                         pos += 1
             pos += len( ln )
 
+        if tail:
+            offset.append(( pos, total + len( tail )))
+
 #       -- merge with previous offsets
         if plain.offset:
             offset = _merge_offset( plain.offset, offset )
-- 
2.43.0


From 562a6c9b1e20776da67ff33ad7ccaebf663d6866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 32/38] fix: do not take the letters thorn and y with diaeresis
 for steady spacing

---
 pp/yugen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 733e7c7..cbf8081 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2657,8 +2657,8 @@ class SKIP( BASE_MARK ):
 #   -----------------------------------
 
 SOURCE_EMPTY = '<null>'
-STEADY_SPACE = '\xFE'
-STEADY_TAB = '\xFF'
+STEADY_SPACE = '\uFDD0'
+STEADY_TAB = '\uFDD1'
 
 #   ---------------------------------------------------------------------------
 def yushell( text, _input = None, _output = None ):
-- 
2.43.0


From 34de416f2d0b4de994044c42c9a7b8ba3c3de982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:25 +0000
Subject: [PATCH 33/38] fix: reduce a blank line at the end of a text with
 browse information

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index cbf8081..12b9f39 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3850,7 +3850,7 @@ def reduce_emptiness( text ):
         empty = set()
         for i, ln in enumerate( lnlist ):
             ( rest, _ ) = ps_space( ln )
-            if rest == EOL:
+            if rest in ( '', EOL ):
                 empty.add( i )
 
 #       -- only reduce number of empty lines
-- 
2.43.0


From 0b9b64282bbaeabced87f6756837adac661541fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 34/38] fix: do not indent the text of a macro when
 re-indentation is off

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 12b9f39..789db1d 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3173,7 +3173,7 @@ def yueval( node, env = ENV(), depth = 0 ):
                     if isinstance( x, EMBED ):
                         if isinstance( x.ast, T ):
 #                           -- add indent of application to each line of substituting text
-                            if node.indent:
+                            if node.indent and config.pp_trim_app_indent:
                                 for ii, xx in enumerate( x.ast ):
                                     if isinstance( xx, PLAIN ):
                                         x.ast[ ii ] = xx.add_indent( node.indent )
-- 
2.43.0


From 09f1cbb490438ae4984e65b19647f065c21d237f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 35/38] fix: lead from the first fragment of generated text to
 the character itself

---
 sublime_text/Data/Packages/yupp/yupp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sublime_text/Data/Packages/yupp/yupp.py b/sublime_text/Data/Packages/yupp/yupp.py
index 8ba5961..89dfe74 100644
--- a/sublime_text/Data/Packages/yupp/yupp.py
+++ b/sublime_text/Data/Packages/yupp/yupp.py
@@ -235,7 +235,7 @@ class GotoOriginCommand( sublime_plugin.TextCommand ):
                 dirs = self.view.window().folders()
                 # search for original file in project directories
                 fn_to = search_file( fn_fruit, dirs, inx )
-                if ( i > 0 ) and ( browse[ i - 1 ][ 0 ] != pos_found ) and ( pos_to > 0 ):
+                if ( i == 0 or browse[ i - 1 ][ 0 ] != pos_found ) and ( pos_to >= 0 ):
                     # relative shift only in case of single jump
                     # and if origin is not ($macro)
                     pos_to += ( pos_fruit + delta - pos_found )
-- 
2.43.0


From 9ee4070254e9ca48cfef3298c3c4836eec60bcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 36/38] fix: keep the sources of expansions apart from files
 whose names are numbers

---
 pp/yugen.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 789db1d..5c1a99b 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -216,9 +216,9 @@ def _loc_repr( x ):
 def _loc( input_file, pos, pointer = True ):
     result = ''
     decl, sou = yushell.source[ input_file ]
-    if input_file.isdigit():
+    if input_file.startswith( SOURCE_INCLUSION ):
 #       -- location is into macro or eval import
-        call = yushell.inclusion[ int( input_file )]
+        call = yushell.inclusion[ int( input_file[ len( SOURCE_INCLUSION ): ])]
         if call:
 #           -- call location
             result += _loc( call.input_file, call.pos, False )
@@ -923,7 +923,7 @@ def _import_eval( infix ):
         _raise_import( e_type, 'ps_import_eval: %s' % ( e ) + infix.loc(), tb )
 
     yushell.inclusion.append( None )
-    _import = str( len( yushell.inclusion ) - 1 )
+    _import = SOURCE_INCLUSION + str( len( yushell.inclusion ) - 1 )
     yushell.source[ _import ] = ( code, sou )
     return _import
 
@@ -2657,6 +2657,8 @@ class SKIP( BASE_MARK ):
 #   -----------------------------------
 
 SOURCE_EMPTY = '<null>'
+#   -- a file name can't contain this character
+SOURCE_INCLUSION = '\0'
 STEADY_SPACE = '\uFDD0'
 STEADY_TAB = '\uFDD1'
 
@@ -2940,10 +2942,10 @@ class RESULT( str ):
     @classmethod
     def loc( cls, input_file, pos ):
         decl = yushell.source[ input_file ][ 0 ]
-        if input_file.isdigit():
+        if input_file.startswith( SOURCE_INCLUSION ):
             result = []
 #           -- location is into macro or eval import
-            call = yushell.inclusion[ int( input_file )]
+            call = yushell.inclusion[ int( input_file[ len( SOURCE_INCLUSION ): ])]
             if call:
 #               -- call location
                 result.extend( cls.loc( call.input_file, call.pos ))
@@ -3603,7 +3605,7 @@ def yueval( node, env = ENV(), depth = 0 ):
                         node.ast = '($' + node.ast + ')'
 
                 yushell.inclusion.append( node.call )
-                _macro = str( len( yushell.inclusion ) - 1 )
+                _macro = SOURCE_INCLUSION + str( len( yushell.inclusion ) - 1 )
                 yushell.source[ _macro ] = ( node.decl, node.ast )
                 node = yuparse( _macro )
                 if not node.ast:
-- 
2.43.0


From 60c84f0020bf7489315bdd4b03a0021eadee60a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 37/38] fix: execute an imported script in a module of its own

---
 pp/yugen.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index 5c1a99b..7363348 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -904,12 +904,17 @@ def _import_python( name, script ):
             lpath = os.path.join( d, script )
             if os.path.isfile( lpath ):
                 break
+#   -- another script can have the same name, don't execute this one in the module of that
+    another = sys.modules.pop( name, None )
     try:
         mod = imp.load_source( name, str( lpath ))
         builtin.update( vars( mod ))
     except:
         e_type, e, tb = sys.exc_info()
         _raise_import( e_type, 'ps_import_python: %s' % ( e ) + script.loc(), tb )
+    finally:
+        if another is not None:
+            sys.modules[ name ] = another
 
     yushell.script.append( script )
 
-- 
2.43.0


From a8f295ade799dcfa8641855968e4c52608386773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 38/38] fix: a macro that sets names, called with a late
 argument, is put in place when it is reduced

---
 pp/yugen.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index 7363348..1d679c4 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3150,6 +3150,12 @@ def yueval( node, env = ENV(), depth = 0 ):
 #                       -- skip node
                         continue
 
+#   ---- T -- TRIM -- EMBED
+                    if isinstance( x, TRIM ) and isinstance( x.ast, EMBED ):
+#                       -- application that could not be reduced before
+                        x = x.ast
+                        x_apply = True
+
 #   ---- T -- SKIP
                     if isinstance( x, SKIP ):
                         skip_level = 1
-- 
2.43.0

