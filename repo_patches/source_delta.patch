From eaabc3eec6e5399a77f46c93ecac6896844a6050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:52 +0000
Subject: [PATCH 01/21] fix: shifting an infinite Range keeps it infinite

---
 execution.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/execution.py b/execution.py
index d1c0b2b..9c6cbb3 100644
--- a/execution.py
+++ b/execution.py
@@ -778,8 +778,7 @@ class ProgramState:
                 lower = rhs.getLower() or 0
                 upper = rhs.getUpper()
                 lower += int(lhs)
-                if upper is not None:
-                    upper += int(lhs)
+                upper = upper + int(lhs) if upper is not None else nil
                 return Range(lower, upper)
             else:
                 return List(self.ADD(lhs, item) for item in rhs)
@@ -3858,8 +3857,7 @@ class ProgramState:
             lower = lhs.getLower() or 0
             upper = lhs.getUpper()
             lower -= int(rhs)
-            if upper is not None:
-                upper -= int(rhs)
+            upper = upper - int(rhs) if upper is not None else nil
             return Range(lower, upper)
         elif isinstance(lhs, Scalar) and isinstance(rhs, Range):
             return List(self.SUB(lhs, item) for item in rhs)
-- 
2.43.0


From 95b871309977207555a158e68c9c9a7118303936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:52 +0000
Subject: [PATCH 02/21] fix: INCLRANGE checks the type of its right operand

---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 9c6cbb3..950553a 100644
--- a/execution.py
+++ b/execution.py
@@ -1892,7 +1892,7 @@ class ProgramState:
 
     def INCLRANGE(self, lhs, rhs):
         """Like RANGE, but include upper bound."""
-        if isinstance(lhs, (Scalar, Nil)) and isinstance(lhs, (Scalar, Nil)):
+        if isinstance(lhs, (Scalar, Nil)) and isinstance(rhs, (Scalar, Nil)):
             if isinstance(rhs, Scalar):
                 return Range(lhs, int(rhs) + 1)
             elif rhs is nil:
-- 
2.43.0


From f90f8f579bdb006d5662df7281ac15c3dd89f479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:52 +0000
Subject: [PATCH 03/21] fix: unary WEAVE leaves its operand alone and handles
 empty and non-iterable operands

---
 execution.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 950553a..b56a258 100644
--- a/execution.py
+++ b/execution.py
@@ -4184,6 +4184,7 @@ class ProgramState:
                 # Weaving the characters just results in the same thing anyway
                 return iterables
             elif isinstance(iterables, (List, Range)):
+                iterables = list(iterables)
                 result = []
                 allScalar = True
                 for i, iterable in enumerate(iterables):
@@ -4198,7 +4199,7 @@ class ProgramState:
                         self.err.warn("Cannot weave object of type",
                                       type(iterable))
                         return nil
-                for i in range(max(map(len, iterables))):
+                for i in range(max(map(len, iterables), default=0)):
                     for iterable in iterables:
                         if i < len(iterable):
                             result.append(iterable[i])
@@ -4206,6 +4207,10 @@ class ProgramState:
                     return Scalar(self.JOIN(result))
                 else:
                     return List(result)
+            else:
+                self.err.warn("Unimplemented argtype for WEAVE:",
+                              type(iterables))
+                return nil
         else:
             # Binary version: two iterables to be woven together
             if iterable1 is nil:
-- 
2.43.0


From 20c34dc44d93969bb0712915b8b914cc046b6e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:52 +0000
Subject: [PATCH 04/21] fix: undefined names in the warnings of MAPMAP,
 ZIPDEFAULT and assign

---
 execution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/execution.py b/execution.py
index b56a258..69b8c07 100644
--- a/execution.py
+++ b/execution.py
@@ -376,7 +376,7 @@ class ProgramState:
                 try:
                     currentVal = currentVal[index]
                 except IndexError:
-                    self.err.warn(f"Invalid index into {result!r}: {index}")
+                    self.err.warn(f"Invalid index into {currentVal!r}:", index)
                     return
                 
             # Final level--do the assignment
@@ -2253,7 +2253,7 @@ class ProgramState:
             return List(self.MAP(lhs, item) for item in iterable)
         else:
             self.err.warn("Unimplemented argtypes for MAPMAP:",
-                          type(function), "and", type(iterable))
+                          type(lhs), "and", type(iterable))
             return nil
 
     def MAPPAIRS(self, function, iterable):
@@ -4311,7 +4311,7 @@ class ProgramState:
                 return List(List(tuple) for tuple in
                             itertools.zip_longest(*lists, fillvalue=default))
         else:
-            self.err.warn("Trying to zip non-iterable:", type(list1))
+            self.err.warn("Trying to zip non-iterable:", type(lists))
             return nil
 
     def ZIPJOIN(self, line1, line2=None):
-- 
2.43.0


From 5030465b756e09a7e048c8824e69cc7028a2864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:52 +0000
Subject: [PATCH 05/21] fix: functionCall closes the scope when the body raises

---
 execution.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/execution.py b/execution.py
index 69b8c07..327fcf1 100644
--- a/execution.py
+++ b/execution.py
@@ -403,18 +403,20 @@ class ProgramState:
                    for arg in argList]
         # Open a new scope for the function's local variables
         self.openScope(function, argList)
-        for statement in function.getStatements():
-            statementValue = self.executeStatement(statement)
-            # If the statement was actually an expression, store its
-            # value in the history variables ($_ etc.)
-            if statementValue is not None:
-                self.updateHistoryVars(statementValue)
-        returnExpr = function.getReturnExpr()
-        if returnExpr is not None:
-            returnVal = self.getRval(returnExpr)
-        else:
-            returnVal = nil
-        self.closeScope()
+        try:
+            for statement in function.getStatements():
+                statementValue = self.executeStatement(statement)
+                # If the statement was actually an expression, store its
+                # value in the history variables ($_ etc.)
+                if statementValue is not None:
+                    self.updateHistoryVars(statementValue)
+            returnExpr = function.getReturnExpr()
+            if returnExpr is not None:
+                returnVal = self.getRval(returnExpr)
+            else:
+                returnVal = nil
+        finally:
+            self.closeScope()
         return returnVal
 
     def openScope(self, function, argList):
-- 
2.43.0


From 3c8e4e33d9455e457ef857542bccf0d3896fc5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:52 +0000
Subject: [PATCH 06/21] fix: assignment and function calls store copies, not
 shared mutable values

---
 execution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/execution.py b/execution.py
index 327fcf1..fb04283 100644
--- a/execution.py
+++ b/execution.py
@@ -353,7 +353,7 @@ class ProgramState:
         varTable = self.varTable(base)
         if not lval.sliceList:
             # This is a simple name; just make the assignment
-            varTable[base] = rval
+            varTable[base] = rval.copy()
             return
         elif base not in varTable:
             # If there is a slicelist, the variable must exist
@@ -388,7 +388,7 @@ class ProgramState:
             # Test for this case and warning message TODO?
             index = lval.sliceList[-1]
             try:
-                currentVal[index] = rval
+                currentVal[index] = rval.copy()
             except (IndexError, ZeroDivisionError):
                 self.err.warn(f"Invalid index into {currentVal!r}:", index)
             #!print(f"After assign, variable {base!r} is", varTable[base])
@@ -399,7 +399,7 @@ class ProgramState:
 
     def functionCall(self, function, argList):
         """Call the function in a new scope with the given arguments."""
-        argList = [self.getRval(arg) if isinstance(arg, Lval) else arg
+        argList = [self.getRval(arg) if isinstance(arg, Lval) else arg.copy()
                    for arg in argList]
         # Open a new scope for the function's local variables
         self.openScope(function, argList)
-- 
2.43.0


From 296357d3426f71d9af21b0880247fd84b9353203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:52 +0000
Subject: [PATCH 07/21] fix: STRNOTEQUAL is the negation of STREQUAL

---
 execution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index fb04283..6bb1c61 100644
--- a/execution.py
+++ b/execution.py
@@ -3841,7 +3841,8 @@ class ProgramState:
             return nil
 
     def STRNOTEQUAL(self, lhs, rhs):
-        if isinstance(lhs, Scalar) and isinstance(rhs, Scalar):
+        if (isinstance(lhs, (Scalar, Pattern))
+                and isinstance(rhs, (Scalar, Pattern))):
             result = str(lhs) != str(rhs)
         elif isinstance(lhs, List) and isinstance(rhs, List):
             result = (len(lhs) != len(rhs)
-- 
2.43.0


From 8e357a701fe27a3c04001f41824895919a445cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:52 +0000
Subject: [PATCH 08/21] fix: CHR of an out-of-range code point is nil

---
 execution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 6bb1c61..0cacb9b 100644
--- a/execution.py
+++ b/execution.py
@@ -1120,7 +1120,11 @@ class ProgramState:
 
     def CHR(self, rhs):
         if isinstance(rhs, Scalar):
-            result = chr(int(rhs))
+            try:
+                result = chr(int(rhs))
+            except (ValueError, OverflowError):
+                self.err.warn("Not a valid code point:", rhs)
+                return nil
             return Scalar(result)
         elif isinstance(rhs, Pattern):
             # Given a Pattern, C wraps the regex in a capturing group
-- 
2.43.0


From 53dc010bcf4319475aa55c748eab135521e94941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 09/21] fix: a function operand named by a variable is read
 once when building a lambda

---
 execution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/execution.py b/execution.py
index 0cacb9b..9a76285 100644
--- a/execution.py
+++ b/execution.py
@@ -152,6 +152,9 @@ class ProgramState:
                         # Note: All operators that set IN_LAMBDA must set
                         # either VALS or RVALS, so we can assume arg is at
                         # least an Lval here
+                        # Use the function itself from here on, in case the
+                        # evaluation of a later arg changes the Lval
+                        arg = self.getRval(arg)
                         blockArgs.append(i)
                     args[i] = arg
             # Modifying lambda functions trumps LIST_EACH and RANGE_EACH
-- 
2.43.0


From 04cf9976675af30233737e1682d137e9d89395ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:05 +0000
Subject: [PATCH 10/21] fix: slicing an empty string or list gives a new value,
 not the original

---
 ptypes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ptypes.py b/ptypes.py
index cd42463..04ac82d 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -119,8 +119,8 @@ class Scalar(PipIterable):
                 return Scalar(self._value[index])
         elif isinstance(index, slice):
             if self._value == "":
-                # Slicing the empty string gives empty string
-                return self
+                # Slicing the empty string gives (a new) empty string
+                return Scalar("")
             length = len(self._value)
             repString = self._value
             start = index.start if index.start is not None else 0
@@ -410,8 +410,8 @@ class List(PipIterable):
                 return self._value[index]
         elif isinstance(index, slice):
             if self._value == []:
-                # Slicing the empty list gives empty list
-                return self
+                # Slicing the empty list gives (a new) empty list
+                return List([])
             length = len(self._value)
             repList = self._value[:]  # Shallow copy so as not to change _value
             start = index.start if index.start is not None else 0
-- 
2.43.0


From 22e270dd2dcc13c1a20ffcbb92ddc8df262a0503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:35 +0000
Subject: [PATCH 11/21] fix: TRIM by a Range with an upper bound longer than
 the string gives the empty string

---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 9a76285..551cf0c 100644
--- a/execution.py
+++ b/execution.py
@@ -4100,7 +4100,7 @@ class ProgramState:
             front = max(front, 0)
             back = max(back, 0)
             string = str(string)
-            return Scalar(string[front:len(string)-back])
+            return Scalar(string[front:max(len(string)-back, 0)])
         else:
             self.err.warn("Unimplemented argtype for lhs of TRIM:",
                           type(string))
-- 
2.43.0


From 018f127538c7069485efbd9d770908d03b65d768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:37 +0000
Subject: [PATCH 12/21] fix: stripping by a Pattern with alternatives strips
 only at the ends

---
 execution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/execution.py b/execution.py
index 551cf0c..f423e0f 100644
--- a/execution.py
+++ b/execution.py
@@ -2150,7 +2150,7 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                beginning = re.compile("^" + patternStr)
+                beginning = re.compile(f"^(?:{patternStr})")
                 newString = beginning.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
@@ -3455,7 +3455,7 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                end = re.compile(patternStr + "$")
+                end = re.compile(f"(?:{patternStr})$")
                 newString = end.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
@@ -3779,12 +3779,12 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                beginning = re.compile("^" + patternStr)
+                beginning = re.compile(f"^(?:{patternStr})")
                 newString = beginning.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
                     newString = beginning.sub("", oldString)
-                end = re.compile(patternStr + "$")
+                end = re.compile(f"(?:{patternStr})$")
                 newString = end.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
-- 
2.43.0


From 223cb79f7a45c3ac8f917117d21f9818870da339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:40 +0000
Subject: [PATCH 13/21] fix: an escaped backslash before a letter in an escaped
 string is not an interpolation

---
 parsing.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parsing.py b/parsing.py
index ab910da..285ccd4 100644
--- a/parsing.py
+++ b/parsing.py
@@ -212,8 +212,10 @@ def parseOperand(tokenList):
         token = tokenList.pop(0)
         # Strip off \" delimiters
         rawText = token[2:-2]
-        # Parse any interpolation sequences (for now, just names)
-        litOrInterpolation = re.split(r"\\([a-z_]|[A-Z]{1,2})", rawText)
+        # Parse any interpolation sequences (for now, just names); pairs of
+        # backslashes in front of one are escaped backslashes
+        litOrInterpolation = re.split(
+            r"(?<!\\)((?:\\\\)*)\\([a-z_]|[A-Z]{1,2})", rawText)
         if len(litOrInterpolation) == 1:
             # No interpolations--return the token unchanged
             return token
@@ -222,12 +224,14 @@ def parseOperand(tokenList):
             strOp = operators.opsByArity[1]["ST"]
             joinOp = operators.opsByArity[1]["J"]
             expression = [operators.enlist]
-            literal = litOrInterpolation.pop(0)
+            literal = "".join(litOrInterpolation[:2])
+            del litOrInterpolation[:2]
             expression.append(tokens.EscapedString(rf'\"{literal}\"'))
             while litOrInterpolation:
                 interpolation = litOrInterpolation.pop(0)
                 expression.append([strOp, tokens.Name(interpolation)])
-                literal = litOrInterpolation.pop(0)
+                literal = "".join(litOrInterpolation[:2])
+                del litOrInterpolation[:2]
                 expression.append(tokens.EscapedString(rf'\"{literal}\"'))
             return [operators.paren, [joinOp, expression]]
     elif isinstance(tokenList[0], (tokens.Name, tokens.Literal)):
-- 
2.43.0


From b3b0916b47a5577d924098ecf9cee929982eebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:54 +0000
Subject: [PATCH 14/21] fix: HALVE and HALVEUP are exact for integers of any
 size

---
 execution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index f423e0f..3c785e3 100644
--- a/execution.py
+++ b/execution.py
@@ -1826,7 +1826,7 @@ class ProgramState:
     def HALVE(self, rhs):
         """Halve and round down."""
         if isinstance(rhs, Scalar):
-            return Scalar(math.floor(rhs.toNumber() / 2))
+            return Scalar(math.floor(rhs.toNumber() // 2))
         else:
             self.err.warn("Unimplemented argtype for HALVE:",
                           type(rhs))
@@ -1835,7 +1835,7 @@ class ProgramState:
     def HALVEUP(self, rhs):
         """Halve and round up."""
         if isinstance(rhs, Scalar):
-            return Scalar(math.ceil(rhs.toNumber() / 2))
+            return Scalar(math.ceil(-(-rhs.toNumber() // 2)))
         else:
             self.err.warn("Unimplemented argtype for HALVEUP:",
                           type(rhs))
-- 
2.43.0


From f2972d012c89eb3d9a54c082a79e4fca01c52499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:59 +0000
Subject: [PATCH 15/21] fix: rounding an integer to a multiple of an integer is
 exact for integers of any size

---
 execution.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/execution.py b/execution.py
index 3c785e3..4ac874d 100644
--- a/execution.py
+++ b/execution.py
@@ -1055,6 +1055,8 @@ class ProgramState:
                 return Scalar(math.ceil(lhs))
             else:
                 lhs = lhs.toNumber()
+                if isinstance(lhs, int) and isinstance(precision, int):
+                    return Scalar(-(-lhs // precision) * precision)
                 return Scalar(math.ceil(lhs / precision) * precision)
         else:
             if rhs is None:
@@ -1708,6 +1710,8 @@ class ProgramState:
                 return Scalar(math.floor(lhs))
             else:
                 lhs = lhs.toNumber()
+                if isinstance(lhs, int) and isinstance(precision, int):
+                    return Scalar(lhs // precision * precision)
                 return Scalar(math.floor(lhs / precision) * precision)
         else:
             if rhs is None:
@@ -3394,6 +3398,14 @@ class ProgramState:
                     return Scalar(math.ceil(lhs))
             else:
                 lhs = lhs.toNumber()
+                if isinstance(lhs, int) and isinstance(precision, int):
+                    # Exact for integers of any size; ties go to the
+                    # even multiple, as they do in math.remainder
+                    quotient, remainder = divmod(lhs, precision)
+                    if (2 * remainder > precision
+                            or 2 * remainder == precision and quotient % 2):
+                        quotient += 1
+                    return Scalar(quotient * precision)
                 return Scalar(lhs - math.remainder(lhs, precision))
         else:
             if rhs is None:
@@ -3420,6 +3432,11 @@ class ProgramState:
                 return Scalar(math.trunc(lhs))
             else:
                 lhs = lhs.toNumber()
+                if isinstance(lhs, int) and isinstance(precision, int):
+                    # Exact for integers of any size
+                    remainder = abs(lhs) % precision
+                    return Scalar(lhs - remainder if lhs > 0
+                                  else lhs + remainder)
                 return Scalar(math.trunc(lhs / precision) * precision)
         else:
             if rhs is None:
-- 
2.43.0


From 819f8323e53c98ef388d3685aa41d505df8989ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:43 +0000
Subject: [PATCH 16/21] fix: COSEC and COTAN of zero give nil

---
 execution.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index 4ac874d..f3627f7 100644
--- a/execution.py
+++ b/execution.py
@@ -1167,7 +1167,11 @@ class ProgramState:
 
     def COSEC(self, rhs):
         if isinstance(rhs, Scalar):
-            return Scalar(1/math.sin(rhs.toNumber()))
+            try:
+                return Scalar(1/math.sin(rhs.toNumber()))
+            except ZeroDivisionError:
+                self.err.warn("Can't take COSEC of", rhs)
+                return nil
         else:
             self.err.warn("Unimplemented argtype for COSEC:", type(rhs))
             return nil
@@ -1181,7 +1185,11 @@ class ProgramState:
 
     def COTAN(self, rhs):
         if isinstance(rhs, Scalar):
-            return Scalar(1/math.tan(rhs.toNumber()))
+            try:
+                return Scalar(1/math.tan(rhs.toNumber()))
+            except ZeroDivisionError:
+                self.err.warn("Can't take COTAN of", rhs)
+                return nil
         else:
             self.err.warn("Unimplemented argtype for COTAN:", type(rhs))
             return nil
-- 
2.43.0


From ca9c61204674b707c1762487c709ed65b1cf7c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:59 +0000
Subject: [PATCH 17/21] fix: CHOP into n slices gives n slices whatever the
 rounding of the slice length

---
 execution.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/execution.py b/execution.py
index f3627f7..c14a364 100644
--- a/execution.py
+++ b/execution.py
@@ -1098,22 +1098,23 @@ class ProgramState:
             chunks = rhs.toNumber()
             if chunks > 0:
                 index = 0
-                jump = len(iterable) / chunks
                 while index < len(iterable):
-                    endIndex = min(index + jump, len(iterable))
+                    endIndex = (len(result) + 1) * len(iterable) / chunks
+                    endIndex = min(endIndex, len(iterable))
                     chunk = iterable[math.floor(index):math.floor(endIndex)]
                     result.append(chunk)
-                    index += jump
+                    index = endIndex
                 return result
             elif chunks < 0:
                 # With a negative chunk number, chop from right to left
-                index = len(iterable)
-                jump = len(iterable) / chunks
+                length = len(iterable)
+                index = length
                 while index > 0:
-                    startIndex = max(index + jump, 0)
+                    startIndex = length + (len(result) + 1) * length / chunks
+                    startIndex = max(startIndex, 0)
                     chunk = iterable[math.ceil(startIndex):math.ceil(index)]
                     result.append(chunk)
-                    index += jump
+                    index = startIndex
                 return result
             else:
                 self.err.warn("Cannot CHOP into 0 slices")
-- 
2.43.0


From 81dc86036440eb9d7872086d42b2d6688f301399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:02 +0000
Subject: [PATCH 18/21] fix: COMBINATIONS of a negative number of items gives
 nil

---
 execution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/execution.py b/execution.py
index c14a364..bd2d17b 100644
--- a/execution.py
+++ b/execution.py
@@ -1142,6 +1142,10 @@ class ProgramState:
     def COMBINATIONS(self, iterable, num):
         """Return List of all ways to choose num items from iterable."""
         if isinstance(iterable, PipIterable) and isinstance(num, Scalar):
+            if int(num) < 0:
+                self.err.warn("Cannot choose a negative number of items:",
+                              num)
+                return nil
             result = itertools.combinations(iterable, int(num))
             if isinstance(iterable, Scalar):
                 return List(self.JOIN(comb) for comb in result)
-- 
2.43.0


From f86f4bfcbda816c60b18d2337ab36e38d9574025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:02 +0000
Subject: [PATCH 19/21] fix: REPLACEAT on a Range, an empty value or with no
 replacements does not crash

---
 execution.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/execution.py b/execution.py
index bd2d17b..ddfd7ae 100644
--- a/execution.py
+++ b/execution.py
@@ -3270,9 +3270,19 @@ class ProgramState:
     def REPLACEAT(self, lhs, index, new):
         if (isinstance(lhs, PipIterable)
                 and isinstance(index, PipIterable)):
-            result = lhs.copy()
+            if isinstance(lhs, Range):
+                # Ranges are immutable, so replace in a List of the same items
+                if not lhs.isFinite():
+                    self.err.warn("Cannot REPLACEAT in infinite Range:", lhs)
+                    return nil
+                result = List(lhs)
+            else:
+                result = lhs.copy()
             if isinstance(index, List):
-                if isinstance(new, List):
+                if isinstance(new, List) and new.isEmpty():
+                    self.err.warn("No replacements given for REPLACEAT")
+                    return result
+                elif isinstance(new, List):
                     # Both are lists--replace at corresponding indices
                     # with corresponding values
                     # If the new list is shorter than the index list, cycle
@@ -3290,7 +3300,11 @@ class ProgramState:
                     index = int(index)
                 elif isinstance(index, Range):
                     index = index.toSlice()
-                result[index] = new
+                try:
+                    result[index] = new
+                except (IndexError, TypeError, ZeroDivisionError):
+                    self.err.warn("Cannot replace at index", index,
+                                  "of", lhs)
                 return result
         elif index is nil:
             # Replacing at nil index leaves lhs unchanged
-- 
2.43.0


From aefb7545d27cda53ddf7e97690acb95a04386f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:53 +0000
Subject: [PATCH 20/21] fix: random choice from nothing gives nil instead of
 crashing

RANDCHOICE of an empty or infinite iterable and RANDRANGE over an empty
range raised an uncaught ValueError.
---
 execution.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index ddfd7ae..10d11f1 100644
--- a/execution.py
+++ b/execution.py
@@ -3100,7 +3100,12 @@ class ProgramState:
 
     def RANDCHOICE(self, iterable):
         if isinstance(iterable, PipIterable):
-            index = random.randrange(len(iterable))
+            try:
+                index = random.randrange(len(iterable))
+            except ValueError:
+                # The iterable is empty or infinite
+                self.err.warn("Cannot choose a random item from:", iterable)
+                return nil
             return iterable[index]
         else:
             self.err.warn("Unimplemented argtype for RANDCHOICE:",
@@ -3114,6 +3119,10 @@ class ProgramState:
             else:
                 lhs = int(lhs)
             rhs = int(rhs)
+            if lhs >= rhs:
+                self.err.warn("No numbers to choose from in RANDRANGE from",
+                              lhs, "to", rhs)
+                return nil
             return Scalar(random.randrange(lhs, rhs))
         else:
             self.err.warn("Unimplemented argtypes for RANDRANGE:",
@@ -3123,7 +3132,11 @@ class ProgramState:
     def RANDRANGETO(self, rhs):
         """Unary version of RANDRANGE."""
         if isinstance(rhs, Scalar):
-            return Scalar(random.randrange(int(rhs)))
+            rhs = int(rhs)
+            if rhs <= 0:
+                self.err.warn("No numbers to choose from in RANDRANGE to", rhs)
+                return nil
+            return Scalar(random.randrange(rhs))
         else:
             self.err.warn("Unimplemented argtype for RANDRANGETO:",
                           type(rhs))
-- 
2.43.0


From 840681e564920a89c49b94b5fa81796e55fa8cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:53 +0000
Subject: [PATCH 21/21] fix: nothing is in a function or pattern, so NI gives 1

NI with a function on the right raised a TypeError, and with a pattern
it searched the pattern's text although N never finds anything there.
---
 execution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 10d11f1..db27060 100644
--- a/execution.py
+++ b/execution.py
@@ -2482,8 +2482,11 @@ class ProgramState:
         elif isinstance(needle, Pattern) and isinstance(haystack, Scalar):
             matchExists = needle.asRegex().search(str(haystack))
             return Scalar(not matchExists)
-        else:
+        elif isinstance(haystack, PipIterable):
             return Scalar(needle not in haystack)
+        else:
+            # If it's not one of those types, nothing is in it (cf. IN)
+            return Scalar("1")
 
     def NUMCMP(self, lhs, rhs):
         # Equivalent to Python2's cmp() function: return -1 if lhs < rhs,
-- 
2.43.0

