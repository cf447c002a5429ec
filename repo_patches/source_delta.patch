From e3ccc9174c085ca8b1f3ab4d99d82d120d75b2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:50 +0000
Subject: [PATCH 01/80] fix: pass plain lists of expressions to lambdify when
 compiling an equation block

numpy object arrays of expressions make sympy's lambdify raise TypeError, so
no compiled differential system and no polished initial guess could be run.
---
 src/sloth/core/equation_block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index a613930..0eb49bb 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -175,7 +175,7 @@ class EquationBlock:
             if differential_form == 'elementary':
 
                 fun_ = sp.lambdify(self._var_list,
-                                   np_array(self._getEquationList(differential_form,side)),
+                                   self._getEquationList(differential_form,side),
                                    [{'Min':min, 'Max':max, 'Sin':np.sin, 'Cos':np.cos}, compilation_mechanism]
                             )
 
@@ -195,7 +195,7 @@ class EquationBlock:
                 rewritten_eqs = [eq_i.subs(yd_map) for eq_i in original_eqs]
 
                 _fun_ = sp.lambdify(["t","y","yd"],
-                                   np_array(rewritten_eqs),
+                                   rewritten_eqs,
                                    [{'Min':min, 'Max':max, 'Sin':math.sin, 'Cos':math.cos}, compilation_mechanism]
                             )
 
@@ -208,7 +208,7 @@ class EquationBlock:
         else:
 
             fun_ = sp.lambdify(self._var_list,
-                               np_array(self._equations_list),
+                               self._equations_list,
                                [{'Min': min, 'Max': max, 'Sin': np.sin, 'Cos': np.cos}, compilation_mechanism]
                                )
 
-- 
2.43.0


From 9f806c13a7c1c2f1c9f5b575e65a4dba9e71d521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:50 +0000
Subject: [PATCH 02/80] fix: functions of plain numbers raised NameError

---
 src/sloth/core/equation_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 582e8c3..aeeab5f 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -46,7 +46,7 @@ def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None,
                                   variable_map={},
                                   unit_object=dimless,
                                   latex_text=f_name(latex_func_name, str(obj)),
-                                  repr_symbolic=base_func(obj, *args,evaluate=False)
+                                  repr_symbolic=base_func(obj, evaluate=False)
                                 )
 
             return enode_
-- 
2.43.0


From 8baa0228ceb19a6b0d85771870d4e448c3c03d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 03/80] fix: Min and Max compare the units of their arguments

With expressions only, the check compared an expression to a unit and always
raised; mixed with numbers, the units were not compared at all.
---
 src/sloth/core/equation_operators.py | 33 ++++++++++------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index aeeab5f..4d5b512 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -6,6 +6,7 @@ import sympy as sp
 import numpy as np
 from .expression_evaluation import EquationNode
 from .template_units import dimless
+from .error_definitions import UnexpectedValueError
 # import error_definitions as errors
 
 
@@ -182,24 +183,18 @@ def Min(*obj):
 
         obj_dims = dimless
 
-    elif all(isinstance(obj_i, EquationNode) for obj_i in obj):
+    else:
+
+        obj_units = [obj_i.unit_object for obj_i in obj if isinstance(obj_i, EquationNode)]
 
-        if all(the_unit == obj[0].unit_object for the_unit in obj):
+        if all(unit_i._check_dimensional_coherence(obj_units[0]) for unit_i in obj_units):
 
-            obj_dims = obj[0].unit_object
+            obj_dims = obj_units[0]
 
         else:
 
             raise UnexpectedValueError("A set of objects with equivalent dimensions")
 
-    else:
-
-        obj_dims = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')][0]
-
-        if obj_dims is []:
-
-            obj_dims = dimless
-
     enode_ = EquationNode(name=f_name,
                           symbolic_object=sp.Min(*obj_symb_objcts, evaluate=False),
                           symbolic_map=obj_symb_map,
@@ -280,24 +275,18 @@ def Max(*obj):
 
         obj_dims = dimless
 
-    elif all(isinstance(obj_i, EquationNode) for obj_i in obj):
+    else:
+
+        obj_units = [obj_i.unit_object for obj_i in obj if isinstance(obj_i, EquationNode)]
 
-        if all(the_unit == obj[0].unit_object for the_unit in obj):
+        if all(unit_i._check_dimensional_coherence(obj_units[0]) for unit_i in obj_units):
 
-            obj_dims = obj[0].unit_object
+            obj_dims = obj_units[0]
 
         else:
 
             raise UnexpectedValueError("A set of objects with equivalent dimensions")
 
-    else:
-
-        obj_dims = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')][0]
-
-        if obj_dims is []:
-
-            obj_dims = dimless
-
     enode_ = EquationNode(name=f_name,
                           symbolic_object=sp.Max(*obj_symb_objcts, evaluate=False),
                           symbolic_map=obj_symb_map,
-- 
2.43.0


From f8750f3132484204ceba760cffb7e5e545e4456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 04/80] fix: representation of Min and Max names the specified
 quantities they use

---
 src/sloth/core/equation_operators.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 4d5b512..042c8cb 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -127,6 +127,8 @@ def Min(*obj):
 
     obj_symb_objcts = []
 
+    obj_repr_objcts = []
+
     for obj_i in obj:
 
         if hasattr(obj_i,'obj_latex_name'):
@@ -159,10 +161,14 @@ def Min(*obj):
 
             obj_symb_objcts.append(obj_i.symbolic_object)
 
+            obj_repr_objcts.append(obj_i.repr_symbolic)
+
         else:
 
             obj_symb_objcts.append(obj_i)
 
+            obj_repr_objcts.append(obj_i)
+
         #Gather all the symbolic and variable map from the obj
 
         try:
@@ -201,7 +207,7 @@ def Min(*obj):
                           variable_map=obj_var_map,
                           unit_object=obj_dims,
                           latex_text=latex_func_name,
-                          repr_symbolic=sp.Min(*obj_symb_objcts, evaluate=False)
+                          repr_symbolic=sp.Min(*obj_repr_objcts, evaluate=False)
                         )
 
     return enode_
@@ -220,6 +226,8 @@ def Max(*obj):
 
     obj_symb_objcts = []
 
+    obj_repr_objcts = []
+
     for obj_i in obj:
 
         if hasattr(obj_i,'obj_latex_name'):
@@ -252,10 +260,14 @@ def Max(*obj):
 
             obj_symb_objcts.append(obj_i.symbolic_object)
 
+            obj_repr_objcts.append(obj_i.repr_symbolic)
+
         else:
 
             obj_symb_objcts.append(obj_i)
 
+            obj_repr_objcts.append(obj_i)
+
         #Gather all the symbolic and variable map from the obj
 
         try:
@@ -293,7 +305,7 @@ def Max(*obj):
                           variable_map=obj_var_map,
                           unit_object=obj_dims,
                           latex_text=latex_func_name,
-                          repr_symbolic=sp.Max(*obj_symb_objcts, evaluate=False)
+                          repr_symbolic=sp.Max(*obj_repr_objcts, evaluate=False)
                         )
 
     return enode_
-- 
2.43.0


From 128e0a1240717a774b3e51bb29ca8ae3de901743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:27 +0000
Subject: [PATCH 05/80] fix: derivatives inside products, quotients and
 functions keep the differential type

A product, quotient or function of a derivative was reported as algebraic, and
Min/Max of unknowns as linear.
---
 src/sloth/core/equation_operators.py    | 18 +++++++++++++++++-
 src/sloth/core/expression_evaluation.py |  4 ++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 042c8cb..99094d0 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -18,6 +18,18 @@ def _Log10(sp_obj, evaluate=True):
 
     return(sp.log(sp_obj,10,evaluate=evaluate))
 
+def _getFunctionType(args):
+
+    """
+    Type of the expression obtained by the application of a nonlinear function over the arguments supplied
+    """
+
+    enodes = [arg_i for arg_i in args if isinstance(arg_i, EquationNode)]
+
+    is_differential = any(enode_i.equation_type['is_differential'] for enode_i in enodes)
+
+    return {'is_linear':len(enodes)==0, 'is_nonlinear':len(enodes)>0 and not is_differential, 'is_differential':is_differential}
+
 def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None, dim_check=True, ind_var=None):
 
         if equation_type == None:
@@ -67,7 +79,7 @@ def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None,
                                 repr_symbolic=base_func(obj.repr_symbolic, evaluate=False)
                                 )
 
-                enode_.equation_type = equation_type_
+                enode_.equation_type = equation_type_ if equation_type is not None else _getFunctionType([obj])
 
                 return enode_
 
@@ -210,6 +222,8 @@ def Min(*obj):
                           repr_symbolic=sp.Min(*obj_repr_objcts, evaluate=False)
                         )
 
+    enode_.equation_type = _getFunctionType(obj)
+
     return enode_
 
 def Max(*obj):
@@ -308,6 +322,8 @@ def Max(*obj):
                           repr_symbolic=sp.Max(*obj_repr_objcts, evaluate=False)
                         )
 
+    enode_.equation_type = _getFunctionType(obj)
+
     return enode_
 
 def _Diff(obj, ind_var_):
diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index 9ff9bed..5dbddce 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -330,7 +330,7 @@ class EquationNode:
 
             else:
 
-                enode_.equation_type = {'is_linear':False, 'is_nonlinear':True, 'is_differential':False} # self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type)
+                enode_.equation_type = self._checkEquationTypePrecedence(self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type), {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
 
             return(enode_)
 
@@ -431,7 +431,7 @@ class EquationNode:
 
             else:
 
-                enode_.equation_type = {'is_linear':False, 'is_nonlinear':True, 'is_differential':False} # self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type)
+                enode_.equation_type = self._checkEquationTypePrecedence(self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type), {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
 
             return(enode_)
 
-- 
2.43.0


From bf3393b132c36ead77661192bdbeb0d79e10efa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:27 +0000
Subject: [PATCH 06/80] fix: dividing a specified quantity by an unknown is not
 linear

---
 src/sloth/core/expression_evaluation.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index 5dbddce..3e13720 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -423,12 +423,6 @@ class EquationNode:
 
                 enode_.equation_type = {**self.equation_type}
 
-            elif self.variable_map == {} and other_obj.variable_map != {}:
-
-                # current object is a specified Quantity
-
-                enode_.equation_type = {**other_obj.equation_type}
-
             else:
 
                 enode_.equation_type = self._checkEquationTypePrecedence(self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type), {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
-- 
2.43.0


From bebb5db89b1ec833c0ddefd8ae94e9866de250c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 07/80] fix: a power by a specified dimensionless quantity
 scales the dimension

---
 src/sloth/core/expression_evaluation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index 3e13720..62327f3 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -533,14 +533,15 @@ class EquationNode:
 
             if other_obj.unit_object._is_dimensionless() == True:
 
-                #other_obj is dimensionless
+                #other_obj is dimensionless. When it is specified, its value scales the dimension
+                power = float(other_obj.symbolic_object) if other_obj.variable_map == {} else other_obj.unit_object
 
                 enode_ = self.__class__(
                                     name="**".join([self.name, other_obj.name]),
                                     symbolic_object=self.symbolic_object**other_obj.symbolic_object,
                                     symbolic_map={**self.symbolic_map, **other_obj.symbolic_map},
                                     variable_map={**self.variable_map, **other_obj.variable_map},
-                                    unit_object=self.unit_object**other_obj.unit_object,
+                                    unit_object=self.unit_object**power,
                                     latex_text=self.latex_text+"^"+other_obj.latex_text,             
                                     repr_symbolic=self.repr_symbolic**other_obj.repr_symbolic   
                                     )
-- 
2.43.0


From fdd5341e5b7e9219f09edc969670eff82a06d527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 08/80] fix: setValue refuses a float given with a unit of
 another dimension

Operator precedence let any float through, whatever its unit; integers were
already refused.
---
 src/sloth/core/constant.py  | 4 ++--
 src/sloth/core/parameter.py | 4 ++--
 src/sloth/core/quantity.py  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sloth/core/constant.py b/src/sloth/core/constant.py
index a9bcc31..132fa53 100644
--- a/src/sloth/core/constant.py
+++ b/src/sloth/core/constant.py
@@ -84,14 +84,14 @@ class Constant(Quantity):
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
diff --git a/src/sloth/core/parameter.py b/src/sloth/core/parameter.py
index 7a1e53c..39d0274 100644
--- a/src/sloth/core/parameter.py
+++ b/src/sloth/core/parameter.py
@@ -70,14 +70,14 @@ class Parameter(Quantity):
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
diff --git a/src/sloth/core/quantity.py b/src/sloth/core/quantity.py
index 8152cc8..3454266 100644
--- a/src/sloth/core/quantity.py
+++ b/src/sloth/core/quantity.py
@@ -88,13 +88,13 @@ class Quantity:  # New-style class syntax
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
-- 
2.43.0


From 736e3282451e0599815dd29832e52a0873651197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 09/80] fix: message of the error for a dimensional exponent
 crashed

---
 src/sloth/core/error_definitions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/error_definitions.py b/src/sloth/core/error_definitions.py
index e11dc20..f30dbd5 100644
--- a/src/sloth/core/error_definitions.py
+++ b/src/sloth/core/error_definitions.py
@@ -159,9 +159,9 @@ class DimensionalCoherenceError(Exception):
     def __str__(self):
 
         msg = "Dimensions are incoherent \n(" + \
-               str(self.unit_1.dimension)   + \
+               str(getattr(self.unit_1, 'dimension', self.unit_1))   + \
                "\n != \n"                       + \
-               str(self.unit_2.dimension)   + \
+               str(getattr(self.unit_2, 'dimension', self.unit_2))   + \
                ")."
 
         return(msg)
-- 
2.43.0


From efa33abafdbf785c37cfa70c03483888f0e3ab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 10/80] fix: arithmetic between quantities raised TypeError

---
 src/sloth/core/quantity.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/sloth/core/quantity.py b/src/sloth/core/quantity.py
index 3454266..065cd96 100644
--- a/src/sloth/core/quantity.py
+++ b/src/sloth/core/quantity.py
@@ -157,7 +157,7 @@ class Quantity:  # New-style class syntax
 
             # Dimensional coherence confirmed. Insert here commands
 
-            new_obj = self.__class__(units = self.units, value = self.value+other_obj.value)
+            new_obj = self.__class__(name = self.name, units = self.units, value = self.value+other_obj.value)
 
             return new_obj
 
@@ -184,7 +184,7 @@ class Quantity:  # New-style class syntax
 
             # Dimensional coherence confirmed. Insert here commands
 
-            new_obj = self.__class__(units = self.units, value = self.value-other_obj.value)
+            new_obj = self.__class__(name = self.name, units = self.units, value = self.value-other_obj.value)
 
             return new_obj
 
@@ -206,7 +206,7 @@ class Quantity:  # New-style class syntax
         :rtype Variable new_obj:
         """
 
-        new_obj = self.__class__(units = self.units*other_obj.units, value = self.value*other_obj.value)
+        new_obj = self.__class__(name = self.name, units = self.units*other_obj.units, value = self.value*other_obj.value)
 
         return new_obj
 
@@ -224,10 +224,18 @@ class Quantity:  # New-style class syntax
         :rtype Variable new_obj:
         """
 
-        new_obj = self.__class__(units = self.units/other_obj.units, value = self.value/other_obj.value)
+        new_obj = self.__class__(name = self.name, units = self.units/other_obj.units, value = self.value/other_obj.value)
 
         return(new_obj)
 
+    def __truediv__(self, other_obj):
+
+        """
+        Overloaded function for true division of two unit-containing-objects.
+        """
+
+        return self.__div__(other_obj)
+
     def __pow__(self, power):
 
         """
@@ -243,6 +251,6 @@ class Quantity:  # New-style class syntax
 
         """
 
-        new_obj = self.__class__( units = self.units**power.value, value = self.value**power.value )
+        new_obj = self.__class__(name = self.name, units = self.units**power.value, value = self.value**power.value )
 
         return(new_obj)
-- 
2.43.0


From 6a0ffd56811c3536f423ab72cbf1f67f9f0b9762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:16 +0000
Subject: [PATCH 11/80] fix: equations built from an expression lost the
 objects they declare

---
 src/sloth/core/equation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 698ed93..04027b9 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -375,7 +375,7 @@ class Equation:
 
             self.equation_form = 'elementary'
 
-            self.objects_declared = self._sweepObjects()
+            self._sweepObjects()
 
             self._getTypeFromExpression()
 
@@ -385,7 +385,7 @@ class Equation:
 
             self.equation_expression = equation_expression
 
-            self.objects_declared = self._sweepObjects()
+            self._sweepObjects()
 
             self._getTypeFromExpression()
 
-- 
2.43.0


From 1c97806bb1ef1e63d2204017b01ffc6f22c1746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:16 +0000
Subject: [PATCH 12/80] fix: evaluating an equation with the current values of
 its objects raised TypeError

---
 src/sloth/core/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 04027b9..4985d56 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -427,7 +427,7 @@ class Equation:
 
         if symbolic_map == None:
 
-            symbolic_map_ = self.equation_expression.symbolic_map
+            symbolic_map_ = {name_i: obj_i.value for name_i, obj_i in self.equation_expression.symbolic_map.items()}
 
         else:
 
-- 
2.43.0


From b8e2a6566c094338b2cb9472e6b1fbbebaa67583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 13/80] fix: equations with Log10 could not be compiled into
 functions

---
 src/sloth/core/equation_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 99094d0..1aa99cd 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -16,7 +16,7 @@ Transcedental functions for utilization in the equation definition
 
 def _Log10(sp_obj, evaluate=True):
 
-    return(sp.log(sp_obj,10,evaluate=evaluate))
+    return(sp.log(sp_obj,evaluate=evaluate)/sp.log(10))
 
 def _getFunctionType(args):
 
-- 
2.43.0


From 6a7eba6258d94affabc448608ac6d7e0b4af3c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:49 +0000
Subject: [PATCH 14/80] fix: evaluating an equation with Min or Max at a tie
 raised ValueError

---
 src/sloth/core/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 4985d56..61dd74b 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -445,7 +445,7 @@ class Equation:
 
         else:
 
-            res = equation_expression_.symbolic_object.evalf(subs=eval_map)
+            res = equation_expression_.symbolic_object.subs(eval_map).evalf()
 
         return res
 
-- 
2.43.0


From 87f48a0cbaf6ae1635896dcb5b1e4eb407bea2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:11 +0000
Subject: [PATCH 15/80] fix: setValue accepts a quantity of another class

---
 src/sloth/core/constant.py  | 2 +-
 src/sloth/core/parameter.py | 2 +-
 src/sloth/core/quantity.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/core/constant.py b/src/sloth/core/constant.py
index 132fa53..411e34e 100644
--- a/src/sloth/core/constant.py
+++ b/src/sloth/core/constant.py
@@ -71,7 +71,7 @@ class Constant(Quantity):
             Unit object for the parameter. Defaults to currennt units
         """
 
-        if isinstance(quantity_value, self.__class__):
+        if isinstance(quantity_value, Quantity):
 
 
             if quantity_unit == None and  quantity_value.units._check_dimensional_coherence(self.units) == True:
diff --git a/src/sloth/core/parameter.py b/src/sloth/core/parameter.py
index 39d0274..65c63ce 100644
--- a/src/sloth/core/parameter.py
+++ b/src/sloth/core/parameter.py
@@ -57,7 +57,7 @@ class Parameter(Quantity):
             Unit object for the parameter. Defaults to currennt units
         """
 
-        if isinstance(quantity_value, self.__class__):
+        if isinstance(quantity_value, Quantity):
 
 
             if quantity_unit == None and  quantity_value.units._check_dimensional_coherence(self.units) == True:
diff --git a/src/sloth/core/quantity.py b/src/sloth/core/quantity.py
index 065cd96..8f972a9 100644
--- a/src/sloth/core/quantity.py
+++ b/src/sloth/core/quantity.py
@@ -75,7 +75,7 @@ class Quantity:  # New-style class syntax
         """
         Set the current value for the Quantity object given a value and optionally an Unit object
         """
-        if isinstance(quantity_value, self.__class__):
+        if isinstance(quantity_value, Quantity):
 
 
             if quantity_unit == None and  quantity_value.units._check_dimensional_coherence(self.units) == True:
-- 
2.43.0


From 1f13efffc113b64ec3922ae38aabb91192d73f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:45 +0000
Subject: [PATCH 16/80] fix: incorporating a model with exposed variables
 raised KeyError

---
 src/sloth/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 5f8b047..c5ee15e 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -424,7 +424,7 @@ class Model:
 
         if var_.is_exposed == True:
 
-            self.exposed_vars[type].append(var_)
+            self.exposed_vars[var_.type].append(var_)
 
         #Adding the object to current Model as an atribute (pythonic beauty)
 
-- 
2.43.0


From 964279cf0cba7daa44dc7f72e56d5bdb6f6a6e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:45 +0000
Subject: [PATCH 17/80] fix: incorporated equations are renamed at once and
 completely

---
 src/sloth/core/equation.py | 44 +++++++++++++-------------------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 61dd74b..0599673 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -292,49 +292,35 @@ class Equation:
                 equation_expression object.
         """
 
-        self.equation_expression.repr_symbolic = self.equation_expression.repr_symbolic.subs(names_map)
+        symbols_map = {sp.Symbol(k):sp.Symbol(v) for (k,v) in names_map.items()}
 
-        self.equation_expression.symbolic_object = self.equation_expression.symbolic_object.subs(names_map)
+        def _rename(symbolic_object):
 
-        if self.elementary_equation_expression is not None:
-
-            elem_expr = list(self.elementary_equation_expression)
+            # Numbers do not support symbolic substitution
 
-            elem_expr[0].repr_symbolic = elem_expr[0].repr_symbolic.subs(names_map)
+            return symbolic_object.xreplace(symbols_map) if isinstance(symbolic_object, sp.Basic) else symbolic_object
 
-            elem_expr[1].repr_symbolic = elem_expr[1].repr_symbolic.subs(names_map)
+        def _redirect(obj_map):
 
-            try:
+            names_ = [names_map.get(k,k) for k in obj_map.keys()]
 
-                elem_expr[0].symbolic_object = elem_expr[0].symbolic_object.subs(names_map)
+            return {k:whole_obj_map[k] for k in names_}
 
-            except:
-
-                pass #Element does not support symbolic substitution. It is a float.
-
-            try:
+        enodes = [self.equation_expression]
 
-                elem_expr[1].symbolic_object = elem_expr[1].symbolic_object.subs(names_map)
-
-            except:
-
-                pass #Element does not support symbolic substitution. It is a float.
-
-            symbols_used_0 = [str(i) for i in list(elem_expr[0].repr_symbolic.free_symbols)]
-
-            symbols_used_1 = [str(i) for i in list(elem_expr[1].repr_symbolic.free_symbols)]
+        if self.elementary_equation_expression is not None:
 
-            elem_expr[0].symbolic_map = {k:whole_obj_map[k] for k in symbols_used_0}
+            enodes.extend(self.elementary_equation_expression)
 
-            elem_expr[1].symbolic_map = {k:whole_obj_map[k] for k in symbols_used_1}
+        for enode_i in enodes:
 
-            self.elementary_equation_expression = tuple(elem_expr)
+            enode_i.repr_symbolic = _rename(enode_i.repr_symbolic)
 
-        symbols_used_ = [str(i) for i in list(self.equation_expression.repr_symbolic.free_symbols)]
+            enode_i.symbolic_object = _rename(enode_i.symbolic_object)
 
-        new_symbolic_map = {k:whole_obj_map[k] for k in symbols_used_}
+            enode_i.symbolic_map = _redirect(enode_i.symbolic_map)
 
-        self.equation_expression.symbolic_map = new_symbolic_map
+            enode_i.variable_map = _redirect(enode_i.variable_map)
 
         self._sweepObjects()
 
-- 
2.43.0


From 7e7ba322d9d54c2d4c6cf56312b37c07341eb46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:45 +0000
Subject: [PATCH 18/80] fix: incorporating equations without renaming raised
 KeyError

---
 src/sloth/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index c5ee15e..1affee4 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -381,6 +381,10 @@ class Model:
 
         names_map = {k: k[:-(1+len(model_to_incorporate.name))]+'_'+self.name for k in whole_names_from_old_model}
 
+        if rewrite_name is not True:
+
+            names_map = {k:k for k in whole_names_from_old_model}
+
         if incorporate_equations is True:
 
             whole_objects_map = {}
-- 
2.43.0


From 1c36b658a20b082bf622c591d8ff57da0c89d95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:12 +0000
Subject: [PATCH 19/80] fix: a connection recorded the names of its ends
 swapped

---
 src/sloth/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 1affee4..b56cd37 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -634,7 +634,7 @@ class Model:
 
             description = "["+out_vars_names+"--->"+in_vars_names+"]"
 
-            conn = connection.Connection(name, description, in_vars_names, out_vars_names, expr)
+            conn = connection.Connection(name, description, out_vars_names, in_vars_names, expr)
 
             conn.setResidual(expr) # I DON'T UNDERSTAND WHY THIS NEED TO BE HERE! x)
 
-- 
2.43.0


From 34646d9a641982f9ff54fa5f7c3d8a465f6a5bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:12 +0000
Subject: [PATCH 20/80] fix: the error for connections of several non-exposed
 variables crashed

---
 src/sloth/core/error_definitions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/error_definitions.py b/src/sloth/core/error_definitions.py
index f30dbd5..88c7437 100644
--- a/src/sloth/core/error_definitions.py
+++ b/src/sloth/core/error_definitions.py
@@ -14,9 +14,15 @@ class ExposedVariableError(Exception):
 
         self.m2_exposed_names = [var_i.name for var_i in model_2_exposed_vars]
 
-        self.input_var_name = input_var.name
+        # Lists of variables are also accepted as the ends of a connection
 
-        self.output_var_name = output_var.name
+        input_vars = input_var if isinstance(input_var, list) else [input_var]
+
+        output_vars = output_var if isinstance(output_var, list) else [output_var]
+
+        self.input_var_name = (",").join([str(getattr(var_i, 'name', var_i)) for var_i in input_vars])
+
+        self.output_var_name = (",").join([str(getattr(var_i, 'name', var_i)) for var_i in output_vars])
 
     def __str__(self):
 
-- 
2.43.0


From 3f71f7521ac80e570b3eccddc8e8f0529a25033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:12 +0000
Subject: [PATCH 21/80] fix: executing a model again duplicated its exposed
 variables

---
 src/sloth/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index b56cd37..d47801d 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -428,7 +428,7 @@ class Model:
 
         if var_.is_exposed == True:
 
-            self.exposed_vars[var_.type].append(var_)
+            self.exposed_vars[var_.type][:] = [var_i for var_i in self.exposed_vars[var_.type] if var_i.name != var_.name] + [var_]
 
         #Adding the object to current Model as an atribute (pythonic beauty)
 
@@ -716,7 +716,9 @@ class Model:
 
         if is_exposed == True:
 
-            self.exposed_vars[type].append(var)
+            #A variable declared again takes the place of the former one
+
+            self.exposed_vars[type][:] = [var_i for var_i in self.exposed_vars[type] if var_i.name != var.name] + [var]
 
         return var
 
-- 
2.43.0


From f722daa84780e21d6f92407031022700830cf926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:12 +0000
Subject: [PATCH 22/80] fix: all models and unit operations shared the same
 ports

---
 src/sloth/model.py   | 4 ++--
 src/sloth/unit_op.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index d47801d..59cf9d5 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -132,7 +132,7 @@ class Model:
 
     """
 
-    def __init__(self, name, description = "", property_package=None, ports={'inlets':{},'outlets':{}}, function_for_inlets_totalization = None, function_for_outlets_totalization = None):
+    def __init__(self, name, description = "", property_package=None, ports=None, function_for_inlets_totalization = None, function_for_outlets_totalization = None):
 
         """
         Instantiate Model.
@@ -194,7 +194,7 @@ class Model:
 
         self._outputs = []
 
-        self.ports = ports
+        self.ports = ports if ports is not None else {'inlets':{},'outlets':{}}
 
         self.objects_info = {}
 
diff --git a/src/sloth/unit_op.py b/src/sloth/unit_op.py
index 972ea82..34ebce6 100644
--- a/src/sloth/unit_op.py
+++ b/src/sloth/unit_op.py
@@ -17,7 +17,7 @@ class UnitOp:
     Defines the UnitOp class, that holds the capabilities for: acessing ports (inputs, outputs) from the UnitOp objects; Predefine streams for input and output, allowing to the port to be passed directly to other UnitOps
     """
 
-    def __init__(self, n_inputs=0, n_outputs=0, model=None, ports={'inlets':{},'outlets':{}}):
+    def __init__(self, n_inputs=0, n_outputs=0, model=None, ports=None):
 
         self.n_inputs = n_inputs
 
@@ -25,7 +25,7 @@ class UnitOp:
 
         self.model = model
 
-        self.ports = ports
+        self.ports = ports if ports is not None else {'inlets':{},'outlets':{}}
 
         self.property_package = model.property_package
 
-- 
2.43.0


From ff5ab2bc9ca6c608911f9c0ba995ad3c96779152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:12 +0000
Subject: [PATCH 23/80] fix: a unit operation without inlets could not be
 resolved

---
 src/sloth/unit_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/unit_op.py b/src/sloth/unit_op.py
index 34ebce6..5365c6f 100644
--- a/src/sloth/unit_op.py
+++ b/src/sloth/unit_op.py
@@ -29,7 +29,7 @@ class UnitOp:
 
         self.property_package = model.property_package
 
-        self._intlets = []
+        self._inlets = []
 
         self._outlets = []
 
-- 
2.43.0


From 8addd5a17d597aae201a82f6cdea9999fb53d78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:12 +0000
Subject: [PATCH 24/80] fix: a problem missed the objects its models declare
 when they are executed

---
 src/sloth/problem.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index e5b231f..a7cb755 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -385,6 +385,14 @@ class Problem:
 
         self._reloadModels()
 
+        # The objects declared (or declared again) by the models when they were reloaded
+
+        for model_i in self.models.values():
+
+            self.variable_dict.update(model_i.variables)
+
+            self.parameter_dict.update(model_i.parameters)
+
         self._buildEquationBlock()
 
         self.equation_block()
-- 
2.43.0


From 3819e4e7b6be9e006708f7a8c4dd29db68e7e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:12 +0000
Subject: [PATCH 25/80] fix: a second connection given by expressions between
 two models replaced the first

---
 src/sloth/problem.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index a7cb755..02fb862 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -275,16 +275,34 @@ class Problem:
                 if model_1 is "":
                     model_1 = gen_rnd_str()
 
-                model_2.createEquation("conn_"+model_1+"-->"+model_2.name, "Connection from "+model_1+" to "+model_2.name, input_vars - output_vars, check_equation=False)
+                self._createInputConnection(model_1, model_2, input_vars - output_vars)
 
             elif isinstance(model_1, Model) is True:
 
-                model_2.createEquation("conn_"+model_1.name+"-->"+model_2.name, "Connection from "+model_1.name+" to "+model_2.name, input_vars - output_vars, check_equation=False)
+                self._createInputConnection(model_1.name, model_2, input_vars - output_vars)
 
             else:
 
                 raise AbsentRequiredObjectError("[Model, str]")
 
+    def _createInputConnection(self, out_name, in_model, expr):
+
+        """
+        Create the equation for a connection whose ends are expressions. An unequal connection beetween the same models receives a name of its own
+        """
+
+        base_name = "conn_"+out_name+"-->"+in_model.name
+
+        name, n = base_name, 1
+
+        while name+'_'+in_model.name in in_model.equations and \
+              in_model.equations[name+'_'+in_model.name].equation_expression.repr_symbolic != expr.repr_symbolic:
+
+            n += 1
+
+            name = base_name+"("+str(n)+")"
+
+        in_model.createEquation(name, "Connection from "+out_name+" to "+in_model.name, expr, check_equation=False)
 
     def _createDirectConnection(self, out_model, out_vars, in_model, in_vars, expr, description):
 
-- 
2.43.0


From 71f228a7cb366da39be5b6720a2b182e032a301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:59 +0000
Subject: [PATCH 26/80] fix: connections and incorporated equations kept the
 values of specified objects at their creation

---
 src/sloth/core/equation.py | 22 ++++++++++++++++++++++
 src/sloth/problem.py       |  2 ++
 2 files changed, 24 insertions(+)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 0599673..cb58503 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -212,6 +212,28 @@ class Equation:
 
         self.objects_declared = { **self.equation_expression.symbolic_map }
 
+    def _updateSpecifiedValues(self):
+
+        """
+        Give the objects that are specified their current values in the expressions of the equation.
+        """
+
+        enodes = [self.equation_expression]
+
+        if self.elementary_equation_expression is not None:
+
+            enodes.extend(self.elementary_equation_expression)
+
+        for enode_i in enodes:
+
+            values_map = {sp.Symbol(k):obj_i.value for (k,obj_i) in enode_i.symbolic_map.items() if obj_i.is_specified is True}
+
+            if len(values_map) > 0 and isinstance(enode_i.repr_symbolic, sp.Basic):
+
+                enode_i.symbolic_object = enode_i.repr_symbolic.subs(values_map, simultaneous=True)
+
+                enode_i.variable_map = {k:obj_i for (k,obj_i) in enode_i.variable_map.items() if obj_i.is_specified is not True}
+
     def _convertToResidualForm(self):
 
         """
diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index 02fb862..887e5ac 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -160,6 +160,8 @@ class Problem:
 
             for eq_i in list(model_i.equations.values()):
 
+                eq_i._updateSpecifiedValues()
+
                 self._equation_list.append(eq_i)
 
                 for obj_i in list(eq_i.objects_declared.values()):
-- 
2.43.0


From fc8e4eb9e05df14f09013efcc97601f29ebf8551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:59 +0000
Subject: [PATCH 27/80] fix: an equation was taken to contain every variable
 whose name is part of another name

---
 src/sloth/core/equation_block.py | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 0eb49bb..a472e24 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -266,38 +266,24 @@ class EquationBlock:
 
         else:
 
-            where_to_look = self._equations_list
+            where_to_look = self.equations
 
         for eq in where_to_look:
 
-            #print("\n======>Equation: ", eq._getSymbolicObject())
+            symbolic_object = eq._getSymbolicObject('residual')
 
-            try:
+            if isinstance(symbolic_object, sp.Basic):
 
-                equation_members_ = eq._getSymbolicObject().args
+                #The terms under 'Derivative' are not accounted
 
-            except:
+                symbolic_object = symbolic_object.xreplace({diff_i:sp.Dummy() for diff_i in symbolic_object.atoms(sp.Derivative)})
 
-                equation_members_ = []
-
-            for eq_i in equation_members_:
-
-                #print("\n\t======>Member: ",eq_i)
-
-                #print("\n\t\t======>Has time_var_declared? : ", [ t_i in sp.srepr(eq_i) for t_i in var_name])
-
-                #Will not trigger for 'Derivative' terms
-
-                if any(var_i in sp.srepr(eq_i) and 'Derivative' not in sp.srepr(eq_i) for var_i in var_name):
+                if any(symbol_i.name in var_name for symbol_i in symbolic_object.atoms(sp.Symbol)):
 
                     has_been_declared = True
 
                     break
 
-            if has_been_declared is True:
-
-                break
-
         return has_been_declared
 
     def __call__(self):
-- 
2.43.0


From e3d9ed3f8c7fc7acd1cdf3fa2facd54aa02e2811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:59 +0000
Subject: [PATCH 28/80] fix: specified variables were counted as unknowns and
 unspecified constants were not

---
 src/sloth/analysis.py            | 4 ++++
 src/sloth/core/equation_block.py | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sloth/analysis.py b/src/sloth/analysis.py
index dbdd29b..7b32fd1 100644
--- a/src/sloth/analysis.py
+++ b/src/sloth/analysis.py
@@ -46,6 +46,10 @@ class DOF_Analysis:
 
         unspec_param_names = [par_i.name for par_i in list(self.problem.equation_block.parameter_dict.values()) if par_i.is_specified is False]
 
+        unspec_const_names = list({obj_i.name for eq_i in self.problem.equation_block.equations for obj_i in eq_i.objects_declared.values() if isinstance(obj_i, Constant) and obj_i.is_specified is False})
+
+        unspec_param_names.extend(unspec_const_names)
+
         n_unspec_params = len(unspec_param_names)
 
         n_eqs = len(self.problem.equation_block._equations_list)
diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index a472e24..fc02b41 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -145,7 +145,7 @@ class EquationBlock:
 
         """
 
-        var_name_list = list(self.variable_dict.keys())
+        var_name_list = [name_i for (name_i,var_i) in self.variable_dict.items() if var_i.is_specified is not True]
 
         return var_name_list
 
-- 
2.43.0


From f865af3b244ef6a1f662731f2da398da125868af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:36 +0000
Subject: [PATCH 29/80] fix: algebraic equations written as left equals right
 were solved without their left side

---
 src/sloth/core/equation_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index fc02b41..d1a408c 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -298,6 +298,6 @@ class EquationBlock:
 
         self._var_list = self._getVarList()
 
-        self._equations_list = self._getEquationList()
+        self._equations_list = self._getEquationList('residual')
 
         self._assignEquationGroups()
\ No newline at end of file
-- 
2.43.0


From 7536a0f0b92a65387835906622fb1fc3c1525723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:36 +0000
Subject: [PATCH 30/80] fix: the scipy linear solver gave arrays instead of
 numbers

---
 src/sloth/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index f06de13..53fc05f 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -239,7 +239,7 @@ class LASolver(Solver):
 
         A, b = sp.linear_eq_to_matrix(self.problem.equation_block._equations_list, self.problem.equation_block._var_list)
 
-        A, b = np.array(A, dtype=np.float64), np.array(b, dtype=np.float64)
+        A, b = np.array(A, dtype=np.float64), np.array(b, dtype=np.float64).ravel()
 
         #print("\n\nA=%s b=%s"%(A,b))
 
-- 
2.43.0


From f72a745e193fc6919e0563f67d836a604ea8abf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:36 +0000
Subject: [PATCH 31/80] fix: the nonlinear solver reported points that do not
 solve the system

---
 src/sloth/solvers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 53fc05f..bf73a28 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -337,6 +337,14 @@ class NLASolver(Solver):
 
         if sol_state['success'] is True:
 
+            # The mechanism minimizes the residuals: its success does not imply that they are zero
+
+            residuals = [abs(complex(sp.sympify(eq_i).subs(dict(zip(var_names,x_out))).evalf())) for eq_i in equations_list]
+
+            if not max(residuals) <= 1e-4:
+
+                raise NumericalError("The solver did not find a solution for the nonlinear system (largest residual = {})".format(max(residuals)))
+
             x_out_dict = {var_i: val_i for var_i, val_i in zip(var_names,x_out)}
 
             return x_out_dict
-- 
2.43.0


From 434a7001a28a998a5cda0071c07cfb184ef6084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:37 +0000
Subject: [PATCH 32/80] fix: the residuals of a nonlinear solution are compared
 with the size of the terms

---
 src/sloth/solvers.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index bf73a28..85f57d2 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -339,9 +339,19 @@ class NLASolver(Solver):
 
             # The mechanism minimizes the residuals: its success does not imply that they are zero
 
-            residuals = [abs(complex(sp.sympify(eq_i).subs(dict(zip(var_names,x_out))).evalf())) for eq_i in equations_list]
+            solution_map = dict(zip(var_names,x_out))
 
-            if not max(residuals) <= 1e-4:
+            residuals = []
+
+            for eq_i in equations_list:
+
+                terms = [complex(term_i.subs(solution_map).evalf()) for term_i in sp.Add.make_args(sp.sympify(eq_i))]
+
+                # Relative to the size of the terms of the equation
+
+                residuals.append(abs(sum(terms))/(1. + sum(abs(term_i) for term_i in terms)))
+
+            if not max(residuals) <= 1e-5:
 
                 raise NumericalError("The solver did not find a solution for the nonlinear system (largest residual = {})".format(max(residuals)))
 
-- 
2.43.0


From c7ccea9bc0a3d39cd67c74229a4d18ca92ff44b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:37 +0000
Subject: [PATCH 33/80] fix: the scipy linear solver failed for systems of
 several variables

---
 src/sloth/solvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 85f57d2..5928ec4 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -237,7 +237,9 @@ class LASolver(Solver):
 
     def _getABfromEquations(self):
 
-        A, b = sp.linear_eq_to_matrix(self.problem.equation_block._equations_list, self.problem.equation_block._var_list)
+        symbols = [sp.Symbol(str(var_i)) for var_i in self.problem.equation_block._var_list]
+
+        A, b = sp.linear_eq_to_matrix(self.problem.equation_block._equations_list, symbols)
 
         A, b = np.array(A, dtype=np.float64), np.array(b, dtype=np.float64).ravel()
 
-- 
2.43.0


From bb71edf1eabe7278fc6115e1668bb0013808adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:46 +0000
Subject: [PATCH 34/80] fix: the default linear solver gave up on systems it
 had solved

---
 src/sloth/solvers.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 5928ec4..7c59879 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -114,6 +114,22 @@ class Solver:
 
         pass
 
+    def _getLargestResidual(self, equations_list, solution_map):
+
+        """
+        Largest residual of the equations for the solution given, relative to the size of the terms of each equation
+        """
+
+        residuals = []
+
+        for eq_i in equations_list:
+
+            terms = [complex(term_i.subs(solution_map).evalf()) for term_i in sp.Add.make_args(sp.sympify(eq_i))]
+
+            residuals.append(abs(sum(terms))/(1. + sum(abs(term_i) for term_i in terms)))
+
+        return max(residuals)
+
     def _polishRoot(self, initial_guess, polisher='hybr'):
 
         fun = self.problem.equation_block._getEquationBlockAsFunction()
@@ -223,7 +239,9 @@ class LASolver(Solver):
 
         #print(sol_state)
 
-        if sol_state['success'] is True:
+        # The mechanism can stop short of its tolerance (at the rounding error) in an already solved system
+
+        if sol_state['success'] is True or self._getLargestResidual(equations_list, {str(var_i): val_i for var_i, val_i in zip(var_names, x_out)}) <= 1e-10:
 
             x_out_dict = {str(var_i): val_i for var_i, val_i in zip(var_names,x_out)}
 
@@ -343,19 +361,11 @@ class NLASolver(Solver):
 
             solution_map = dict(zip(var_names,x_out))
 
-            residuals = []
-
-            for eq_i in equations_list:
-
-                terms = [complex(term_i.subs(solution_map).evalf()) for term_i in sp.Add.make_args(sp.sympify(eq_i))]
-
-                # Relative to the size of the terms of the equation
-
-                residuals.append(abs(sum(terms))/(1. + sum(abs(term_i) for term_i in terms)))
+            largest_residual = self._getLargestResidual(equations_list, solution_map)
 
-            if not max(residuals) <= 1e-5:
+            if not largest_residual <= 1e-5:
 
-                raise NumericalError("The solver did not find a solution for the nonlinear system (largest residual = {})".format(max(residuals)))
+                raise NumericalError("The solver did not find a solution for the nonlinear system (largest residual = {})".format(largest_residual))
 
             x_out_dict = {var_i: val_i for var_i, val_i in zip(var_names,x_out)}
 
-- 
2.43.0


From 2d21b5e3fb7f58894831b64d4860415bdfb43735 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 35/80] fix: a second registration on a domain failed

---
 src/sloth/core/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/domain.py b/src/sloth/core/domain.py
index a686c57..6cb0c57 100644
--- a/src/sloth/core/domain.py
+++ b/src/sloth/core/domain.py
@@ -177,7 +177,7 @@ class Domain:
 
         elif self.values[var.name].values.size > 0 and values.shape[1] == len(self.independent_vars.keys())+len(self.dependent_objs.keys()):
 
-            self.values[var.name] = pd.DataFrame(np.vstack((self.values[var.name].values, values)),columns=self.values[var.name].index)
+            self.values[var.name] = pd.DataFrame(np.vstack((self.values[var.name].values, values)),columns=self.values[var.name].columns)
 
         else:
 
-- 
2.43.0


From b4a541bfa57881778abe422720bdf09b39181a7f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 36/80] fix: reading values of a domain printed the whole
 domain

---
 src/sloth/core/domain.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sloth/core/domain.py b/src/sloth/core/domain.py
index 6cb0c57..3e2e880 100644
--- a/src/sloth/core/domain.py
+++ b/src/sloth/core/domain.py
@@ -98,8 +98,6 @@ class Domain:
 
             dep_headers = [dep_headers]
 
-        print("self.values:",self.values)
-
         return np.array([self.values[i][j].values for (i,j) in product(ind_vars,dep_headers)])
 
 
-- 
2.43.0


From f88fd8b320b198dc9d781837824796d4a23f5ddf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 37/80] fix: dynamic results were stored under the names of
 other variables

---
 src/sloth/solvers.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 7c59879..a936e54 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -130,6 +130,16 @@ class Solver:
 
         return max(residuals)
 
+    def _arrangeAsDomain(self, names, Y):
+
+        """
+        Arrange the columns of a solution (one for each of the variables named) in the order of the variables of the domain
+        """
+
+        Y = np.asarray(Y)
+
+        return Y[:, [names.index(name_i) for name_i in self.domain.dependent_objs if name_i in names]]
+
     def _polishRoot(self, initial_guess, polisher='hybr'):
 
         fun = self.problem.equation_block._getEquationBlockAsFunction()
@@ -784,6 +794,8 @@ class DSolver(Solver):
             time_points = np.array(time_points)
             Y = np.array(Y)
 
+        Y = self._arrangeAsDomain(Y_names, Y)
+
         # print("\ntime_points.T shape=%s\nY.T shape=%s"%(time_points.reshape(1,-1).T.shape,Y.T.shape))
 
         to_register_ = None
@@ -991,6 +1003,8 @@ class DaeSolver(Solver):
 
             #================================================
 
+        Y = self._arrangeAsDomain(list(ymap.keys()), Y)
+
         to_register_ = np.hstack((np.array(time_points).reshape(-1,1), Y))
 
         if self.additional_configurations['print_output'] == True:
-- 
2.43.0


From 83233c48449d63dc36b83b02dcd28cdf89d1cb15 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 38/80] fix: running a dynamic simulation again failed or mixed
 both runs

---
 src/sloth/solvers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index a936e54..b09eaf8 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -831,6 +831,8 @@ class DSolver(Solver):
 
         #print("\n\n\n--->TO_REGISTER_ = ",to_register_, "\n\n ---> SOLVER = ",self.solver)
 
+        self.domain._reset()
+
         self.domain._register(to_register_)
 
         # ============ Rename domain columns =============
@@ -1019,6 +1021,8 @@ class DaeSolver(Solver):
 
             print(tab)
 
+        self.domain._reset()
+
         self.domain._register(to_register_)
 
         # ============ Rename domain columns =============
-- 
2.43.0


From 67d9a0f70f6dd39074f519664bc3fb1afeebc37d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 39/80] fix: solving a differential problem changed its list of
 unknowns

---
 src/sloth/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index b09eaf8..f765bf3 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -669,7 +669,7 @@ class DSolver(Solver):
 
                 #====== Reorder global_dict from _var_list from equation_block ========
 
-                keys_ = self.problem.equation_block._var_list
+                keys_ = list(self.problem.equation_block._var_list)
                 keys_.extend([i for i in list(global_dict.keys()) if i not in keys_])
 
                 global_dict = {k:global_dict[k] for k in keys_}
@@ -724,7 +724,7 @@ class DSolver(Solver):
 
                 #====== Reorder global_dict from _var_list from equation_block ========
 
-                keys_ = self.problem.equation_block._var_list
+                keys_ = list(self.problem.equation_block._var_list)
                 keys_.extend([i for i in list(global_dict.keys()) if i not in keys_])
 
                 global_dict = {k:global_dict[k] for k in keys_}
-- 
2.43.0


From c4387b5fadce234eb4261aefe6ef5a51dc889e1b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 40/80] fix: dynamic solvers changed the arguments configured,
 for other simulations too

---
 src/sloth/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index f765bf3..e5a063d 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -434,7 +434,7 @@ class DSolver(Solver):
 
         if time_variable_name not in arg_names:
 
-            arg_names.append(time_variable_name)
+            arg_names = arg_names + [time_variable_name]
 
         self.diffSystem = self.setUpDiffSystem()
 
@@ -870,7 +870,7 @@ class DaeSolver(Solver):
 
         if time_variable_name not in arg_names:
 
-            arg_names.append(time_variable_name)
+            arg_names = arg_names + [time_variable_name]
 
         self.differential_Eqs, self.algebraic_Eqs = self._setUpDaeSystem()
 
-- 
2.43.0


From a74dbeaefea5bbb842837734babb5c863eb4803a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 41/80] fix: CVODE ignored the initial time

---
 src/sloth/solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index e5a063d..1d35cf0 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -781,6 +781,7 @@ class DSolver(Solver):
 
             exp_mod = Explicit_Problem(diffYinterfaceForAssimuloSolvers,
                                         Y_0,
+                                        t0=initial_time,
                                         name='CVODE')
             exp_sim = CVode(exp_mod)
             exp_sim.discr='BDF'
-- 
2.43.0


From 9731522e407c55b7505713b7aceae03e029fb815 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 42/80] fix: the default number of time steps of dynamic
 solvers raised AttributeError

---
 src/sloth/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 1d35cf0..75b0a21 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -755,7 +755,7 @@ class DSolver(Solver):
 
         Y_0 = [initial_conditions[var_i] for var_i in Y_names]
 
-        if number_of_time_steps == None and self.end_time!= None:
+        if number_of_time_steps == None and end_time != None:
 
             number_of_time_steps = 100#int(1000*(end_time - initial_time))
 
@@ -953,7 +953,7 @@ class DaeSolver(Solver):
 
         initial_conditions = self.problem.initial_conditions
 
-        if number_of_time_steps == None and self.end_time!= None:
+        if number_of_time_steps == None and end_time != None:
 
             number_of_time_steps = int(2*(end_time - initial_time))
 
-- 
2.43.0


From 8defe021e3d3a6e22e040f8a3cac1147e8d9b903 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 43/80] fix: communication points given as a list failed

---
 src/sloth/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 75b0a21..13e35ea 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -765,7 +765,7 @@ class DSolver(Solver):
 
         else:
 
-            time_points = times_for_solution
+            time_points = np.array(times_for_solution)
 
         #print("\n\n\n\t\t---------->", self.solver)
 
-- 
2.43.0


From f6042d549a9dc3b8f369acde2ea22bdfff2b70d8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 44/80] fix: differential equations not solved for the
 derivative were integrated wrongly

---
 src/sloth/solvers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 13e35ea..028586f 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -583,7 +583,13 @@ class DSolver(Solver):
                  eq_i.elementary_equation_expression[1].args)
                 )
             """
-            y_name.append(str(eq_i.elementary_equation_expression[0].symbolic_object.args[0]))
+            derivative_i = eq_i.elementary_equation_expression[0].symbolic_object if eq_i.equation_form == 'elementary' else None
+
+            if not isinstance(derivative_i, sp.Derivative):
+
+                raise UnexpectedValueError("equation in the form Derivative == expression, instead of equation %s"%eq_i.name)
+
+            y_name.append(str(derivative_i.args[0]))
 
         return y_name
 
-- 
2.43.0


From 0332c87fb40b726c167ee3c7a031e6fefecadbbd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 45/80] fix: differential-algebraic problems refused the names
 of the time variables

---
 src/sloth/solvers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 028586f..4b1aa8d 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -871,7 +871,15 @@ class DaeSolver(Solver):
 
         arg_names = additional_configurations['arg_names']
 
-        if time_variable_name not in problem.initial_conditions:
+        if isinstance(time_variable_name, list):
+
+            has_initial_time_condition_declared = all(t_i in problem.initial_conditions for t_i in time_variable_name)
+
+        else:
+
+            has_initial_time_condition_declared = time_variable_name in problem.initial_conditions
+
+        if has_initial_time_condition_declared is not True:
 
             raise AbsentRequiredObjectError("initial condition for time variable (%s)"%time_variable_name)
 
-- 
2.43.0


From fedaefafbb989dc84e07d3e6a1e92c4c5253246f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 46/80] fix: solving a differential-algebraic problem changed
 its group of linear equations

---
 src/sloth/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 4b1aa8d..8a3317c 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -951,7 +951,7 @@ class DaeSolver(Solver):
 
         nlin_eqs = self.problem.equation_block._equation_groups['nonlinear']
 
-        return diff_eqs, lin_eqs.append(nlin_eqs)
+        return diff_eqs, lin_eqs + nlin_eqs
 
     def solve(self, conf_args={}):
 
-- 
2.43.0


From c704642a70206c7025fa9a1c057c394c20fb3273 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 47/80] fix: differential-algebraic systems were rewritten with
 derivatives and variables of other equations

---
 src/sloth/core/equation_block.py | 49 +++++++++++++++++++++++---------
 src/sloth/solvers.py             |  6 ++--
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index d1a408c..e0537ac 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -96,15 +96,17 @@ class EquationBlock:
 
         diff_list = self._getDiffList()
 
-        yd_list = ["yd[{}]".format(i) for (i,_) in enumerate(diff_list)]
+        # The independent variables are not unknowns
 
-        var_list = self._var_list
+        ind_list = self._getIndependentVarList()
 
-        y_list = ["y[{}]".format(i) for (i,_) in enumerate(var_list)]
+        var_list = [var_i for var_i in self._var_list if var_i not in ind_list]
 
-        yd_map = {k:v for (k,v) in zip(diff_list,yd_list)}
+        # The derivative of an unknown receives the same position of the unknown
 
-        y_map = {k:v for (k,v) in zip(var_list,y_list)}
+        yd_map = {diff_i:"yd[{}]".format(var_list.index(str(diff_i.args[0]))) for diff_i in diff_list}
+
+        y_map = {var_i:"y[{}]".format(i) for (i,var_i) in enumerate(var_list)}
 
         return yd_map, y_map
 
@@ -124,10 +126,22 @@ class EquationBlock:
 
             eq = eqi._getSymbolicObject('residual','rhs')
 
-            _ = [diff_list.append(abs(i).args[0]) for i in eq.args if 'Derivative' in sp.srepr(i)]
+            diff_list.extend([diff_i for diff_i in sorted(eq.atoms(sp.Derivative), key=str) if diff_i not in diff_list])
 
         return diff_list
 
+    def _getIndependentVarList(self):
+
+        """
+        Return the names of the variables in respect to which the equations are differentiated
+
+        :return:
+            List of independent variables
+        :rtype list(str):
+        """
+
+        return list({str(var_i) for diff_i in self._getDiffList() for var_i in diff_i.variables})
+
     def _getParamList(self):
 
         param_name_list = list(self.parameter_dict.keys())
@@ -186,13 +200,18 @@ class EquationBlock:
 
                 yd_map, y_map = self._getMapForRewriteSystemAsResidual()
 
-                # Add y_map dict to yd_map
+                original_eqs = [sp.sympify(eq_i) for eq_i in self._getEquationList(differential_form, side)]
+
+                # The derivatives come first, as they contain the symbols of the unknowns
 
-                yd_map.update(y_map)
+                rewritten_eqs = [eq_i.xreplace({k:sp.Symbol(v) for (k,v) in yd_map.items()}) for eq_i in original_eqs]
 
-                original_eqs = self._getEquationList(differential_form, side)
+                names_map = {ind_i:"t" for ind_i in self._getIndependentVarList()}
 
-                rewritten_eqs = [eq_i.subs(yd_map) for eq_i in original_eqs]
+                names_map.update(y_map)
+
+                rewritten_eqs = [eq_i.xreplace({symbol_i:sp.Symbol(names_map[symbol_i.name]) for symbol_i in eq_i.free_symbols if symbol_i.name in names_map})
+                                 for eq_i in rewritten_eqs]
 
                 _fun_ = sp.lambdify(["t","y","yd"],
                                    rewritten_eqs,
@@ -219,14 +238,18 @@ class EquationBlock:
     def _getBooleanDiffFlagsForEquations(self):
 
         """
-        Return an boolean list of if each of the Equation objects contained in the current EquationBlock are differential
+        Return an boolean list of if each of the unknowns of the current EquationBlock is differentiated
 
         :return:
-            List of boolean flags indicating which equations are boolean
+            List of boolean flags indicating which unknowns are differential
         :rtype list(bool):
         """
 
-        return [float(i.type == 'differential') for i in self.equations]
+        yd_map, y_map = self._getMapForRewriteSystemAsResidual()
+
+        differentiated = [str(diff_i.args[0]) for diff_i in yd_map.keys()]
+
+        return [float(var_i in differentiated) for var_i in y_map.keys()]
 
     def _getEquationList(self, differential_form=None, side='rhs'):
 
diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 8a3317c..a9f5731 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -979,11 +979,11 @@ class DaeSolver(Solver):
 
         #Adopted nomenclature for search for initial conditions defined in the Problem object for differential expressions is original_name+'_d' (eg: u_d)
 
-        yd_0 = [initial_conditions[str(diff_i.args[0])+'_d'] for diff_i in ydmap.keys()]
+        differentiated = [str(diff_i.args[0]) for diff_i in ydmap.keys()]
 
-        if self.solver == None or self.solver == 'IDA':
+        yd_0 = [initial_conditions[var_i+'_d'] if var_i in differentiated else 0. for var_i in ymap.keys()]
 
-            yd_0.append(0.)
+        if self.solver == None or self.solver == 'IDA':
 
             # ========= SET SOLVER INSTANCES ==============
 
-- 
2.43.0


From 809c518fe0d3fc2a5259b257308d50f848b1c525 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 48/80] fix: the solver of differential-algebraic problems
 ignored the communication points

---
 src/sloth/solvers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index a9f5731..59ff81d 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -971,7 +971,13 @@ class DaeSolver(Solver):
 
             number_of_time_steps = int(2*(end_time - initial_time))
 
-        time_points = np.linspace(initial_time, end_time, number_of_time_steps+1).tolist()
+        if conf_args['times_for_solution'] is None:
+
+            time_points = np.linspace(initial_time, end_time, number_of_time_steps+1).tolist()
+
+        else:
+
+            time_points = np.array(conf_args['times_for_solution']).tolist()
 
         ydmap,ymap = self.problem.equation_block._getMapForRewriteSystemAsResidual()
 
-- 
2.43.0


From 62e3b61e129dbde4cad5a8aaea11081bdc812e14 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 49/80] fix: time in more than one model, or in an algebraic
 equation, was counted as an unknown

---
 src/sloth/analysis.py | 42 +++++++++---------------------------------
 1 file changed, 9 insertions(+), 33 deletions(-)

diff --git a/src/sloth/analysis.py b/src/sloth/analysis.py
index 7b32fd1..fee72c3 100644
--- a/src/sloth/analysis.py
+++ b/src/sloth/analysis.py
@@ -42,7 +42,15 @@ class DOF_Analysis:
 
         # DoF Check (Number of variables - number of equations)
 
-        n_vars = len(self.problem.equation_block._var_list)
+        var_names_ = [i for i in self.problem.equation_block._var_list]
+
+        # The independent variables of a dynamic problem are not unknowns, whatever the equations which use them
+
+        if len(self.problem.equation_block._equation_groups["differential"]) > 0:
+
+            var_names_ = [i for i in var_names_ if i not in (self.problem.time_variable_name or [])]
+
+        n_vars = len(var_names_)
 
         unspec_param_names = [par_i.name for par_i in list(self.problem.equation_block.parameter_dict.values()) if par_i.is_specified is False]
 
@@ -54,40 +62,8 @@ class DOF_Analysis:
 
         n_eqs = len(self.problem.equation_block._equations_list)
 
-        var_names_ = [i for i in self.problem.equation_block._var_list]
-
         eq_reps = self.problem.equation_block._equations_list
 
-        has_time_var_declared_in_diff_eq = False
-
-        """
-        for eq in self.problem.equation_block._equation_groups['differential']:
-
-            print("\n======>Equation: ", eq._getSymbolicObject())
-
-            for i in eq._getSymbolicObject().args:
-
-                print("\n\t======>Member: ",i)
-
-                print("\n\t\t======>Has time_var_declared? : ", [ t_i in sp.srepr(i) for t_i in self.problem.time_variable_name])
-
-                if any(t_i in sp.srepr(i) for t_i in self.problem.time_variable_name):
-
-                    has_time_var_declared_in_diff_eq = True
-
-                    break
-            if has_time_var_declared_in_diff_eq is True:
-
-                break
-
-        """
-
-        has_time_var_declared_in_diff_eq = self.problem.equation_block._hasVarBeenDeclared(self.problem.time_variable_name, "differential")
-
-        if has_time_var_declared_in_diff_eq is True:
-
-            n_eqs += 1
-
         n_dof = n_vars + n_unspec_params - n_eqs
 
         if n_dof < 0:
-- 
2.43.0


From b6b20f79cbce09c7bf9b739728bbf59cb29e93d1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 50/80] fix: options of a configuration file replaced those
 given explicitly and the defaults

---
 src/sloth/simulation.py | 145 +++++++++++++++-------------------------
 1 file changed, 53 insertions(+), 92 deletions(-)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index 7cfbd89..50e2d7e 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -92,116 +92,77 @@ class Simulation:
 
     # TODO: Remove the necessity to call for an empty setConfigurations method (e.g: Call it automatically when simulation is being executes)
 
-    def setConfigurations(self,
-                          initial_time=0.,
-                          end_time=None,
-                          linear_solver='symbolicsys',
-                          nonlinear_solver='*',
-                          differential_solver='ODEINT',
-                          differential_algebraic_solver='IDA',
-                          problem_type=None,
-                          is_dynamic=False,
-                          compile_equations=True,
-                          domain=None,
-                          time_variable_name=None,
-                          initial_guess={},
-                          initial_guess_solver=None,
-                          arg_names=[],
-                          args=[],
-                          verbosity_solver=0,
-                          number_of_time_steps=100,
-                          configuration_args={},
-                          print_output=False,
-                          output_headers=None,
-                          variable_name_map={},
-                          compilation_mechanism="numpy",
-                          definition_dict=None,
-                          configurations_file=None,
-                          number_parameters_to_optimize=0,
-                          times_for_solution=None):
+    def setConfigurations(self, definition_dict=None, configurations_file=None, **configurations):
 
         """
         Set the configurations of the current simulation using the defined parameters
 
+        The value of each option is the one given explicitly, otherwise the one contained in the configuration file, otherwise the default one (see _getDefaultConfigurations)
+
         :ivar dict definition_dict:
             Dictionary containing configurations for override all Simulation.runSimulation arguments with those defined in it. Tipically used for performing consecutive simulations (eg: optimization) or using predefined simulation configurations
+
+        :ivar str configurations_file:
+            JSON file containing configurations, as the one created by the dumpConfigurations method
         """
 
-        default_simulation_configurations = {'compile_equations': compile_equations,
-                                             'domain': domain,
-                                             'time_variable_name': time_variable_name,
-                                             'initial_time': initial_time,
-                                             'end_time': end_time,
-                                             'is_dynamic': is_dynamic,
-                                             'arg_names': arg_names,
-                                             'initial_guess': initial_guess,
-                                             'initial_guess_solver': initial_guess_solver,
-                                             'linear_solver': linear_solver,
-                                             'nonlinear_solver': nonlinear_solver,
-                                             'differential_solver': differential_solver,
-                                             'differential_algebraic_solver': differential_algebraic_solver,
-                                             'problem_type': problem_type,
-                                             'args': args,
-                                             'verbosity_solver': verbosity_solver,
-                                             'number_of_time_steps': number_of_time_steps,
-                                             'configuration_args': configuration_args,
-                                             'print_output': print_output,
-                                             'output_headers': output_headers,
-                                             'variable_name_map': variable_name_map,
-                                             'compilation_mechanism': compilation_mechanism,
-                                             'number_parameters_to_optimize': number_parameters_to_optimize,
-                                             'times_for_solution': times_for_solution
-                               }
+        conf = self._getDefaultConfigurations()
+
+        for option_i in configurations:
 
+            if option_i not in conf:
+
+                raise TypeError("setConfigurations() got an unexpected keyword argument '%s'"%option_i)
 
         if configurations_file is not None:
 
             with open(configurations_file, "r") as read_file:
 
-                additional_conf = json.load(read_file)
+                conf.update(json.load(read_file))
 
-        elif definition_dict is not None and isinstance(definition_dict, dict):
+        conf.update(configurations)
 
-            additional_conf = {**default_simulation_configurations, **definition_dict}
+        if definition_dict is not None and isinstance(definition_dict, dict):
 
-        else:
+            conf.update(definition_dict)
+
+        if configurations.get('number_parameters_to_optimize', 0) != 0:
+
+            conf['number_parameters_to_optimize'] = configurations['number_parameters_to_optimize']
+
+        self.configurations = conf
+
+    def _getDefaultConfigurations(self):
+
+        """
+        Return the default value of each option of the simulation
+        """
 
-            if time_variable_name is None and is_dynamic is True:
-                time_variable_name = self.problem.time_variable_name
-
-            additional_conf = {'compile_equations': compile_equations,
-                               'domain': domain,
-                               'time_variable_name': time_variable_name,
-                               'initial_time': initial_time,
-                               'end_time': end_time,
-                               'is_dynamic': is_dynamic,
-                               'arg_names': arg_names,
-                               'initial_guess': initial_guess,
-                               'initial_guess_solver': initial_guess_solver,
-                               'linear_solver': linear_solver,
-                               'nonlinear_solver': nonlinear_solver,
-                               'differential_solver': differential_solver,
-                               'differential_algebraic_solver': differential_algebraic_solver,
-                               'problem_type': problem_type,
-                               'args': args,
-                               'verbosity_solver': verbosity_solver,
-                               'number_of_time_steps': number_of_time_steps,
-                               'configuration_args': configuration_args,
-                               'print_output': print_output,
-                               'output_headers': output_headers,
-                               'variable_name_map': variable_name_map,
-                               'compilation_mechanism': compilation_mechanism,
-                               'number_parameters_to_optimize': number_parameters_to_optimize,
-                               'times_for_solution': times_for_solution
-                               }
-
-        # print("additional_conf is: %s"%additional_conf)
-
-        if number_parameters_to_optimize != 0 and additional_conf[
-            'number_parameters_to_optimize'] != number_parameters_to_optimize:
-            additional_conf['number_parameters_to_optimize'] = number_parameters_to_optimize
-
-        self.configurations = additional_conf
+        return {'compile_equations': True,
+                'domain': None,
+                'time_variable_name': None,
+                'initial_time': 0.,
+                'end_time': None,
+                'is_dynamic': False,
+                'arg_names': [],
+                'initial_guess': {},
+                'initial_guess_solver': None,
+                'linear_solver': 'symbolicsys',
+                'nonlinear_solver': '*',
+                'differential_solver': 'ODEINT',
+                'differential_algebraic_solver': 'IDA',
+                'problem_type': None,
+                'args': [],
+                'verbosity_solver': 0,
+                'number_of_time_steps': 100,
+                'configuration_args': {},
+                'print_output': False,
+                'output_headers': None,
+                'variable_name_map': {},
+                'compilation_mechanism': "numpy",
+                'number_parameters_to_optimize': 0,
+                'times_for_solution': None
+                }
 
     def runSimulation(self, sanity_check=True, show_output_msg=True, show_final_residuals=True):
 
-- 
2.43.0


From 0ec09f6f79d1d468adfdd6963f9d3602238a04bf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 51/80] fix: the time variable of the problem was ignored when
 the options came from a file or a dictionary

---
 src/sloth/simulation.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index 50e2d7e..6d5a210 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -168,6 +168,12 @@ class Simulation:
 
         print_heading()
 
+        configurations = dict(self.configurations)
+
+        if configurations['time_variable_name'] is None and configurations['is_dynamic'] is True:
+
+            configurations['time_variable_name'] = self.problem.time_variable_name
+
         problem_type = self.configurations['problem_type']
 
         number_parameters_to_optimize = self.configurations['number_parameters_to_optimize']
@@ -177,19 +183,19 @@ class Simulation:
 
         if problem_type == "linear":
 
-            solver_mechanism = solvers._createSolver(self.problem, self.configurations)
+            solver_mechanism = solvers._createSolver(self.problem, configurations)
 
         elif problem_type == "nonlinear":
 
-            solver_mechanism = solvers._createSolver(self.problem, self.configurations)
+            solver_mechanism = solvers._createSolver(self.problem, configurations)
 
         elif problem_type == "differential":
 
-            solver_mechanism = solvers._createSolver(self.problem, self.configurations)
+            solver_mechanism = solvers._createSolver(self.problem, configurations)
 
         elif problem_type == "differential-algebraic":
 
-            solver_mechanism = solvers._createSolver(self.problem, self.configurations)
+            solver_mechanism = solvers._createSolver(self.problem, configurations)
         else:
 
             raise UnexpectedValueError("EquationBlock")
@@ -200,7 +206,7 @@ class Simulation:
 
             dof_analist._makeSanityChecks()
 
-        out = solver_mechanism.solve(self.configurations)
+        out = solver_mechanism.solve(configurations)
 
         '''
         if print_output==True and problem_type != 'differential':
-- 
2.43.0


From c48b02ed97dc6bbac70c157fbf56163feca57ec5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 52/80] fix: configurations of dynamic simulations could not be
 dumped

---
 src/sloth/simulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index 6d5a210..72fb535 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -426,7 +426,9 @@ class Simulation:
             file_name = self.name + '-conf.json'
 
         with open(file_name, "w") as write_file:
-            json.dump(self.configurations, write_file)
+            # A domain cannot be written into the file. It should be given along with the file
+
+            json.dump({k:v for (k,v) in self.configurations.items() if k != 'domain'}, write_file, default=lambda v: v.tolist())
 
     def reset(self):
 
-- 
2.43.0


From 9835e450aa53d564ce67a44c52dcaff025625734 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 53/80] fix: resetting a simulation kept its results

---
 src/sloth/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index 72fb535..ce4db63 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -439,6 +439,10 @@ class Simulation:
         if self.domain is not None:
             self.domain._reset()
 
+        self.output = None
+
+        self.status = None
+
     def __getitem__(self, obj):
 
         """
-- 
2.43.0


From 4dda7695ca532f12df001bd3c79f8a5014f42831 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 54/80] fix: time cancelling out of the differential equations
 raised KeyError when they were compiled

---
 src/sloth/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 59ff81d..73e9166 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -652,7 +652,7 @@ class DSolver(Solver):
 
             for t_i in self.problem.time_variable_name:
 
-                has_t_i_var_declared_in_diff_eq = self.problem.equation_block._hasVarBeenDeclared(t_i, "differential")
+                has_t_i_var_declared_in_diff_eq = t_i in self.problem.equation_block._var_list
 
                 #print("\n------>t_i = ",t_i)
 
@@ -707,7 +707,7 @@ class DSolver(Solver):
 
             for t_i in self.problem.time_variable_name:
 
-                has_t_i_var_declared_in_diff_eq = self.problem.equation_block._hasVarBeenDeclared(t_i, "differential")
+                has_t_i_var_declared_in_diff_eq = t_i in self.problem.equation_block._var_list
 
                 #print("\n------>t_i = ",t_i)
 
-- 
2.43.0


From 4d24ccb8cf5aa4bee23ed949faa0c63b0a8cfed7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 55/80] fix: time in the algebraic equations of another model
 was solved for as an unknown

---
 src/sloth/core/equation_block.py | 6 +++++-
 src/sloth/solvers.py             | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index e0537ac..670472a 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -54,6 +54,10 @@ class EquationBlock:
 
         self._fs = None
 
+        # Names of the time variables of the problem
+
+        self._time_variable_names = []
+
     def _assignEquationGroups(self):
 
         """
@@ -140,7 +144,7 @@ class EquationBlock:
         :rtype list(str):
         """
 
-        return list({str(var_i) for diff_i in self._getDiffList() for var_i in diff_i.variables})
+        return list({str(var_i) for diff_i in self._getDiffList() for var_i in diff_i.variables}.union(self._time_variable_names))
 
     def _getParamList(self):
 
diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 73e9166..8cf520f 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -887,6 +887,8 @@ class DaeSolver(Solver):
 
             arg_names = arg_names + [time_variable_name]
 
+        self.problem.equation_block._time_variable_names = list(self.problem.time_variable_name or [])
+
         self.differential_Eqs, self.algebraic_Eqs = self._setUpDaeSystem()
 
         self.arg_names = arg_names
-- 
2.43.0


From 9ef636bc2bdd46c8461fb68a2104d25d2efa64c7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 56/80] fix: the balances of a tank could not be declared

---
 src/sloth/unit_op_library.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 4722f13..2375e9d 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -347,7 +347,7 @@ class Tank(model.Model):
         self.H_out = self.createVariable("H_out", J/mol, "molar enthalpy output", latex_text="H_{out}", is_exposed=True, type='output')
         self.E = self.createVariable("E", J, "Internal energy", latex_text="E")
 
-        self.Q = self.createParameter("Q", J, "Heat rate", latex_text="Q", value=0.)
+        self.Q = self.createParameter("Q", J/s, "Heat rate", latex_text="Q", value=0.)
 
         self.E.distributeOnDomain(self.time_domain)
 
@@ -362,19 +362,23 @@ class Tank(model.Model):
 
     def DeclareEquations(self):
 
-        _molar_conservation = self.N.Diff(self.t) == self. self.ndot_in() - self.ndot_out()
+        _molar_conservation = self.N.Diff(self.t) == self.ndot_in() - self.ndot_out()
 
         self.createEquation("molar_conservation", "Molar consevation", _molar_conservation)
 
-        _mass_conservation = self.M.Diff(self.t) ==  self. self.mdot_in() - self.mdot_out()
+        _mass_conservation = self.M.Diff(self.t) == self.mdot_in() - self.mdot_out()
 
         self.createEquation("mass_conservation", "Mass conservation", _mass_conservation)
 
-        _energy_balance = self.E.Diff(self.t) == self.n_dot_in()*self.H_in() - self.n_dot_out()*self.H_out() + self.Q()
+        _energy_balance = self.E.Diff(self.t) == self.ndot_in()*self.H_in() - self.ndot_out()*self.H_out() + self.Q()
 
         self.createEquation("energy_balance", "Energy balance", _energy_balance)
 
-        _level_balance = self.level.Diff(self.t) == (1./(self.property_package["*"].rho*self.area_sec()))*(self.mdot_in()-self.mdot_out())
+        mix_rho = self.createParameter("mix_rho", kg/(m**3), "Density for the mixture of components")
+
+        mix_rho.setValue(self.property_package["*"].rho)
+
+        _level_balance = self.level.Diff(self.t) == (1./(mix_rho()*self.area_sec()))*(self.mdot_in()-self.mdot_out())
 
         self.createEquation("_level_balance", "Liquid level balance", _level_balance)
 
-- 
2.43.0


From fd611d52a5df4f5cd9937c5edea46245d6ab603a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 57/80] fix: mixers, splitters and pumps could not be created
 without a property package

---
 src/sloth/unit_op_library.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 2375e9d..b8e10ed 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -226,7 +226,7 @@ class Mixer(model.Model):
 
         self.createEquation("mass_conservation", "Mass consevation", _mass_conservation)
 
-        if self.property_package.number_of_phases >=2:
+        if self.property_package is not None and self.property_package.number_of_phases >=2:
 
             _sum_molar_frac_in = -1.
             _sum_mass_frac_in = -1.
@@ -547,7 +547,7 @@ class SimplePump(model.Model):
 
         self.Delta_P = self.createParameter("Delta_P", Pa, "pressure drop", latex_text="{\\Delta P}")
 
-        if self.property_package.number_of_phases>=2:
+        if self.property_package is not None and self.property_package.number_of_phases>=2:
 
             for phase_i in self.property_package.phase_names:
 
@@ -579,7 +579,7 @@ class SimplePump(model.Model):
 
         self.createEquation("energy_balance", "Energy balance", _energy_balance)
 
-        if self.property_package.number_of_phases>=2:
+        if self.property_package is not None and self.property_package.number_of_phases>=2:
 
             for phase_i in self.property_package.phase_names:
 
-- 
2.43.0


From e498a2e0626e9c2c43f41326a65ceb2d0670ef68 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 58/80] fix: the calculated flux of a stream did not follow a
 change of the supplied one

---
 src/sloth/unit_op_library.py | 50 +++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index b8e10ed..9aa329d 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -11,6 +11,32 @@ from .core.domain import *
 
 #from .unit_op import UnitOp, MaterialStream
 
+def _relateFlows(stream):
+
+    """
+    Relate the mass and the molar flux of a stream through the molar mass, when only one of them was supplied. A flux calculated before follows the one supplied.
+    """
+
+    MW = stream.property_package["*"].MW*1e-3
+
+    calculated = getattr(stream, '_calculated_flux', None)
+
+    mdot_calculated = calculated is not None and calculated[0] is stream.mdot and calculated[1] == stream.mdot.value
+
+    ndot_calculated = calculated is not None and calculated[0] is stream.ndot and calculated[1] == stream.ndot.value
+
+    if stream.mdot.is_specified is True and (stream.ndot.is_specified is not True or ndot_calculated):
+
+        stream.ndot.setValue( stream.mdot.value/MW )
+
+        stream._calculated_flux = (stream.ndot, stream.ndot.value)
+
+    elif stream.ndot.is_specified is True and (stream.mdot.is_specified is not True or mdot_calculated):
+
+        stream.mdot.setValue( stream.ndot.value*MW )
+
+        stream._calculated_flux = (stream.mdot, stream.mdot.value)
+
 class HomogeneousMaterialStream(model.Model):
 
     """
@@ -41,13 +67,7 @@ class HomogeneousMaterialStream(model.Model):
         #try to set values if the property_package was defined
         if self.property_package is not None:
 
-            if self.mdot.is_specified is True and self.ndot.is_specified is not True:
-
-                self.ndot.setValue( self.mdot.value/(self.property_package["*"].MW*1e-3) )
-
-            if self.mdot.is_specified is not True and self.ndot.is_specified is True:
-
-                self.mdot.setValue( self.ndot.value*self.property_package["*"].MW*1e-3 )
+            _relateFlows(self)
 
         #Recalculate property_package if T and P where provided
 
@@ -95,13 +115,7 @@ class MaterialStream(model.Model):
         #try to set values if the property_package was defined
         if self.property_package is not None:
 
-            if self.mdot.is_specified is True and self.ndot.is_specified is False:
-
-                self.ndot.setValue( self.mdot.value/(self.property_package["*"].MW*1e-3) )
-
-            if self.mdot.is_specified is False and self.ndot.is_specified is True:
-
-                self.mdot.setValue( self.ndot.value*self.property_package["*"].MW*1e-3 )
+            _relateFlows(self)
 
         #Recalculate property_package if T and P where provided
 
@@ -154,13 +168,7 @@ class MultiphasicMaterialStream(model.Model):
         #try to set values if the property_package was defined
         if self.property_package is not None:
 
-            if self.mdot.is_specified is True and self.ndot.is_specified is False:
-
-                self.ndot.setValue( self.mdot.value/(self.property_package["*"].MW*1e-3) )
-
-            if self.mdot.is_specified is False and self.ndot.is_specified is True:
-
-                self.mdot.setValue( self.ndot.value*self.property_package["*"].MW*1e-3 )
+            _relateFlows(self)
 
         #Recalculate property_package if T and P where provided
 
-- 
2.43.0


From 0b4b18010f493be37cf52ea4999eb96da82352e0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 59/80] fix: inlets of a model were repeated when inlets were
 set again

---
 src/sloth/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 59cf9d5..5904ce2 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -589,7 +589,11 @@ class Model:
 
         self.ports['inlets'].update({inlet_name: _inlets})
 
-        _ = [self._inlets.extend(self.ports['inlets'][in_]) for in_ in list(self.ports['inlets'].keys())]
+        self._inlets = []
+
+        for in_ in list(self.ports['inlets'].keys()):
+
+            self._inlets.extend([i for i in self.ports['inlets'][in_] if not any(i is j for j in self._inlets)])
 
     def _setOutlets(self, outlets):
 
-- 
2.43.0


From d2d681b82affec743f917f6cbc535a50c8dd40ef Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 60/80] fix: a unit operation kept only the streams of the port
 set last

---
 src/sloth/unit_op.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sloth/unit_op.py b/src/sloth/unit_op.py
index 5365c6f..cd8b8d5 100644
--- a/src/sloth/unit_op.py
+++ b/src/sloth/unit_op.py
@@ -338,7 +338,9 @@ class UnitOp:
 
         self.ports['inlets'][inlet_name] = _inlets
 
-        self._inlets = _inlets
+        self._inlets = []
+
+        _ = [self._inlets.extend([i for i in port_i if not any(i is j for j in self._inlets)]) for port_i in self.ports['inlets'].values()]
 
         #self.ports['inlets'].update({inlet_name: _inlets})
 
@@ -362,4 +364,6 @@ class UnitOp:
 
         self.ports['outlets'][outlet_name] = _outlets
 
-        self._outlets = _outlets
\ No newline at end of file
+        self._outlets = []
+
+        _ = [self._outlets.extend([i for i in port_i if not any(i is j for j in self._outlets)]) for port_i in self.ports['outlets'].values()]
-- 
2.43.0


From 5af42117cd48a0a3127c0d68d6e1402cfd35dd71 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 61/80] fix: known values of the inlets were declared as
 equations without unknowns

---
 src/sloth/model.py   | 4 ++--
 src/sloth/unit_op.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 5904ce2..404384e 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -70,13 +70,13 @@ def _totalizeInletsFunction_genericMaterialStreams(main_model, set_P_by_min=True
 
         P_from_inputs = [stream.P() for stream in main_model._inlets]
 
-        _ = [main_model.createEquation("eq_P_"+stream.P.name, "", stream.P() - stream.P.value) for stream in main_model._inlets]
+        _ = [main_model.createEquation("eq_P_"+stream.P.name, "", stream.P() - stream.P.value) for stream in main_model._inlets if stream.P.is_specified is not True]
 
         try:
 
             T_from_inputs = [stream.T() for stream in main_model._inlets]
 
-            _ = [main_model.createEquation("eq_T_"+stream.T.name, "", stream.T() - stream.T.value) for stream in main_model._inlets]
+            _ = [main_model.createEquation("eq_T_"+stream.T.name, "", stream.T() - stream.T.value) for stream in main_model._inlets if stream.T.is_specified is not True]
 
         except:
 
diff --git a/src/sloth/unit_op.py b/src/sloth/unit_op.py
index cd8b8d5..fbb77ab 100644
--- a/src/sloth/unit_op.py
+++ b/src/sloth/unit_op.py
@@ -82,7 +82,7 @@ class UnitOp:
 
                 P_from_inputs = [stream.P() for stream in self._inlets]
 
-                _ = [self.model.createEquation("eq_P_"+stream.P.name, "", stream.P() - stream.P.value) for stream in self._inlets]
+                _ = [self.model.createEquation("eq_P_"+stream.P.name, "", stream.P() - stream.P.value) for stream in self._inlets if stream.P.is_specified is not True]
 
             except:
 
@@ -92,7 +92,7 @@ class UnitOp:
 
                 T_from_inputs = [stream.T() for stream in self._inlets]
 
-                _ = [self.model.createEquation("eq_T_"+stream.T.name, "", stream.T() - stream.T.value) for stream in self._inlets]
+                _ = [self.model.createEquation("eq_T_"+stream.T.name, "", stream.T() - stream.T.value) for stream in self._inlets if stream.T.is_specified is not True]
 
             except:
 
@@ -102,7 +102,7 @@ class UnitOp:
 
                 mdot_from_inputs = [stream.mdot() for stream in self._inlets]
 
-                _ = [self.model.createEquation("eq_mdot_"+stream.mdot.name, "", stream.mdot() - stream.mdot.value) for stream in self._inlets]
+                _ = [self.model.createEquation("eq_mdot_"+stream.mdot.name, "", stream.mdot() - stream.mdot.value) for stream in self._inlets if stream.mdot.is_specified is not True]
 
             except:
 
@@ -112,7 +112,7 @@ class UnitOp:
 
                 ndot_from_inputs = [stream.ndot() for stream in self._inlets]
 
-                _ = [self.model.createEquation("eq_ndot_"+stream.mdot.name, "", stream.ndot() - stream.ndot.value) for stream in self._inlets]
+                _ = [self.model.createEquation("eq_ndot_"+stream.mdot.name, "", stream.ndot() - stream.ndot.value) for stream in self._inlets if stream.ndot.is_specified is not True]
 
             except:
 
-- 
2.43.0


From 09862c1a0d4f03549949aa4ac0a3fc2a68c1d20d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 62/80] fix: total fluxes of a unit operation called an
 undefined function

---
 src/sloth/unit_op.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/unit_op.py b/src/sloth/unit_op.py
index fbb77ab..309c77e 100644
--- a/src/sloth/unit_op.py
+++ b/src/sloth/unit_op.py
@@ -133,11 +133,11 @@ class UnitOp:
             #print("\n\n==>model.ndot_in(): ", self.model.ndot_in().__dict__)
             #print("\n\n==>model.mdot_in(): ", self.model.mdot_in().__dict__)
 
-            self.model.tot_mdot = self.model.createEquation("totalization_mdot", "Totalization eq. for mass flux for "+self.model.name, self.model.mdot_in() - Sum(*mdot_from_inputs))
+            self.model.tot_mdot = self.model.createEquation("totalization_mdot", "Totalization eq. for mass flux for "+self.model.name, self.model.mdot_in() - sum(mdot_from_inputs))
 
             #Molar flux totalization
 
-            self.model.tot_ndot = self.model.createEquation("totalization_ndot", "Totalization eq. for molar flux for "+self.model.name, self.model.ndot_in() - Sum(*ndot_from_inputs))
+            self.model.tot_ndot = self.model.createEquation("totalization_ndot", "Totalization eq. for molar flux for "+self.model.name, self.model.ndot_in() - sum(ndot_from_inputs))
 
             #Create the new property package combining the ones from the input
 
-- 
2.43.0


From 44a70bda5052903f333c666fd87b9eb09341522b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 63/80] fix: adding a property package changed the default
 phases and not the number of phases

---
 src/sloth/core/property_package.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index 6445d64..a10ee46 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -21,7 +21,7 @@ class PropertyPackage:
 
         self.number_of_phases = phases
 
-        self.phase_names = phase_names
+        self.phase_names = list(phase_names)
 
         self.T = 298.15
 
@@ -61,6 +61,8 @@ class PropertyPackage:
 
                     self.phases.update({phase_i: pp.phases[phase_i]})
 
+                    self.number_of_phases += 1
+
             return self
 
         else:
-- 
2.43.0


From d73f158afeb352440e11ac5a23c5bc965b545b0c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 64/80] fix: the mixture of the inlets of a unit operation
 could not be resolved

---
 src/sloth/core/property_package.py | 30 ++++++++++++++++++++++++++++--
 src/sloth/unit_op.py               | 12 +++++++++---
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index a10ee46..65c03e9 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -37,9 +37,35 @@ class PropertyPackage:
 
         self.eos = {}
 
-    def resolve_mixture(self):
+    def addPropertyPackage(self, pp):
 
-        self.mixture = thermo.mixture.Mixture(phase_names, ws, zs)
+        """
+        Include the phases of another property package into the current one
+        """
+
+        return self + pp
+
+    def resolve_mixture(self, ws=None, zs=None, T=None, P=None):
+
+        """
+        Define the mixture from its composition, given as molar (zs) or mass (ws) fractions. Defaults to the composition already defined
+        """
+
+        if zs is None and ws is None:
+
+            zs, ws = self.zs, self.ws
+
+        T = self.T if T is None else T
+
+        P = self.P if P is None else P
+
+        if zs is not None:
+
+            self.mixture = thermo.mixture.Mixture(self.phase_names, zs=zs, T=T, P=P)
+
+        else:
+
+            self.mixture = thermo.mixture.Mixture(self.phase_names, ws=ws, T=T, P=P)
 
         self.zs = self.mixture.zs
 
diff --git a/src/sloth/unit_op.py b/src/sloth/unit_op.py
index 309c77e..e15508b 100644
--- a/src/sloth/unit_op.py
+++ b/src/sloth/unit_op.py
@@ -181,6 +181,10 @@ class UnitOp:
 
                 ndot_phase_i = 0.
 
+                mdot_phase_value_i = 0.
+
+                ndot_phase_value_i = 0.
+
                 all_mdot = 0.
 
                 all_ndot = 0.
@@ -199,11 +203,13 @@ class UnitOp:
 
                             ndot_phase_i += eval("stream.ndot()*stream.z_{}()".format(stream_phase_i))
 
-                #As the symbolic_object of an Parameter is in fact its value, the value from the EquationNode object could be extracted used this attribute
+                            mdot_phase_value_i += eval("stream.mdot.value*stream.w_{}.value".format(stream_phase_i))
+
+                            ndot_phase_value_i += eval("stream.ndot.value*stream.z_{}.value".format(stream_phase_i))
 
-                ws_.append(mdot_phase_i.symbolic_object/all_mdot)
+                ws_.append(mdot_phase_value_i/all_mdot)
 
-                zs_.append(ndot_phase_i.symbolic_object/all_ndot)
+                zs_.append(ndot_phase_value_i/all_ndot)
 
                 exec("self.model.molar_conservation_phase_{} = self.model.createEquation('molar_conservation_phase_{}_inlet','Molar conservation for phase {} from inlets',self.model.z_{}()*self.model.ndot_in() - ndot_phase_i)".format(phase_i, phase_i, phase_i, phase_i))
 
-- 
2.43.0


From 2ce3f6601ed266e0f2a49bde5931b27e2fe93230 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 65/80] fix: a material stream did not have the fractions of
 its phases

---
 src/sloth/unit_op_library.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 9aa329d..bd340ec 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -110,6 +110,20 @@ class MaterialStream(model.Model):
         self.H = self.createParameter("H", J/mol, "Molar enthalpy for stream")
         self.T = self.createParameter("T", K, "Temperature for stream")
 
+        if self.property_package is not None:
+
+            for phase_i in self.property_package.phase_names:
+
+                exec("self.z_{} = self.createParameter('z_{}',dimless,'Molar fraction for {} phase')".format(phase_i, phase_i, phase_i))
+                exec("self.w_{} = self.createParameter('w_{}',dimless,'Mass fraction for {} phase')".format(phase_i, phase_i, phase_i))
+
+                #A stream with a single phase is made of it
+
+                if len(self.property_package.phase_names) == 1:
+
+                    eval("self.z_{}".format(phase_i)).setValue(1.)
+                    eval("self.w_{}".format(phase_i)).setValue(1.)
+
     def DeclareParameters(self):
 
         #try to set values if the property_package was defined
-- 
2.43.0


From 0b2a41e925f64c6974bb8573d0b678eb6c3c7707 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 66/80] fix: objects of the inlets took the place of those of
 the model with the same attribute name

---
 src/sloth/model.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 404384e..eb8ca00 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -432,7 +432,9 @@ class Model:
 
         #Adding the object to current Model as an atribute (pythonic beauty)
 
-        self.__dict__[object_name] = var_
+        if rewrite_name is True or object_name not in self.__dict__:
+
+            self.__dict__[object_name] = var_
 
     def _addParameterDirectly(self, par, rewrite_name):
 
@@ -465,7 +467,9 @@ class Model:
 
         #Adding the object to current Model as an atribute (pythonic beauty)
 
-        self.__dict__[object_name] = par_
+        if rewrite_name is True or object_name not in self.__dict__:
+
+            self.__dict__[object_name] = par_
 
     def _addConstantDirectly(self, con, rewrite_name):
 
@@ -498,7 +502,9 @@ class Model:
 
         #Adding the object to current Model as an atribute (pythonic beauty)
 
-        self.__dict__[object_name] = con_
+        if rewrite_name is True or object_name not in self.__dict__:
+
+            self.__dict__[object_name] = con_
 
     def _addEquationDirectly(self, eq, names_map={}, whole_objects_map={}, rewrite_name=True, rewrite_symbolic_representation=True):
 
-- 
2.43.0


From 06ddd6a253d36099aa3880d9d4796164f4a94bd2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 67/80] fix: balances of the outlet of a unit operation were
 declared twice

---
 src/sloth/unit_op.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/sloth/unit_op.py b/src/sloth/unit_op.py
index e15508b..9166d17 100644
--- a/src/sloth/unit_op.py
+++ b/src/sloth/unit_op.py
@@ -283,10 +283,6 @@ class UnitOp:
 
                     exec("self.model.createEquation('mass_conservation_phase_{}_outlet', 'Mass conservation for phase {} for outlet', self._outlets[0].w_{}()-self.model.w_{}())".format(phase_i, phase_i, phase_i, phase_i))
 
-                    exec("self._outlets[0].createEquation('molar_conservation_phase_{}_outlet', 'Molar conservation for phase {} for outlet', self._outlets[0].z_{}()-self.model.z_{}())".format(phase_i, phase_i, phase_i, phase_i))
-
-                    exec("self._outlets[0].createEquation('mass_conservation_phase_{}_outlet', 'Mass conservation for phase {}for outlet', self._outlets[0].w_{}()-self.model.w_{}())".format(phase_i, phase_i, phase_i, phase_i))
-
                 self._outlets[0].property_package = self.model.property_package
 
             else:
-- 
2.43.0


From bf282b144e16606c1da7e792d120e7ce94e85005 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 68/80] fix: the species of the inlets of a unit operation were
 added to the streams which share its property package

---
 src/sloth/core/property_package.py | 17 +++++++++++++++++
 src/sloth/unit_op.py               |  4 ++++
 2 files changed, 21 insertions(+)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index 65c03e9..db3406e 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -5,6 +5,9 @@ Define ProperyPackage class, which holds the information about the species invol
 """
 
 import thermo
+
+from copy import copy
+
 from .error_definitions import *
 
 class PropertyPackage:
@@ -45,6 +48,20 @@ class PropertyPackage:
 
         return self + pp
 
+    def copy(self):
+
+        """
+        Return another property package with the same phases
+        """
+
+        pp = copy(self)
+
+        pp.phase_names = list(self.phase_names)
+
+        pp.phases = dict(self.phases)
+
+        return pp
+
     def resolve_mixture(self, ws=None, zs=None, T=None, P=None):
 
         """
diff --git a/src/sloth/unit_op.py b/src/sloth/unit_op.py
index 9166d17..3bde865 100644
--- a/src/sloth/unit_op.py
+++ b/src/sloth/unit_op.py
@@ -159,6 +159,10 @@ class UnitOp:
 
             # _ = [print("\n\t",stream.property_package.__dict__) for stream in self.model._inlets]
 
+            #The mixture belongs to this unit operation, whose property package may be shared with other objects
+
+            self.model.property_package = self.model.property_package.copy()
+
             for stream in self._inlets:
 
                 #print("\n\nstream",stream.name,"property_package: ",stream.property_package.__dict__)
-- 
2.43.0


From 06248c4eb1c9542f60a4086a7e2b099d6917bd35 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 69/80] fix: a stream connected again to the same port was
 listed twice among the inlets

---
 src/sloth/model.py   | 4 ++--
 src/sloth/unit_op.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index eb8ca00..9aaae3a 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -588,8 +588,8 @@ class Model:
 
         if isinstance(inlets, list):
 
-            _ = [_inlets.append(i) for i in inlets]
-        else:
+            _ = [_inlets.append(i) for i in inlets if not any(i is j for j in _inlets)]
+        elif not any(inlets is j for j in _inlets):
 
             _inlets.append(inlets)
 
diff --git a/src/sloth/unit_op.py b/src/sloth/unit_op.py
index 3bde865..4754633 100644
--- a/src/sloth/unit_op.py
+++ b/src/sloth/unit_op.py
@@ -332,7 +332,7 @@ class UnitOp:
 
         if isinstance(inlets, list):
 
-            _ = [_inlets.append(i) for i in inlets]
+            _ = [_inlets.append(i) for i in inlets if not any(i is j for j in _inlets)]
 
             self.n_inputs += len(inlets)
 
@@ -358,7 +358,7 @@ class UnitOp:
 
         if isinstance(outlets, list):
 
-            _ = [_outlets.append(i) for i in outlets]
+            _ = [_outlets.append(i) for i in outlets if not any(i is j for j in _outlets)]
 
             self.n_outputs += len(outlets)
 
-- 
2.43.0


From 40202fe608a0569daff52a4cf0520784faeb93a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 70/80] fix: the fractions of the species of a unit could not
 be connected

---
 src/sloth/unit_op_library.py | 60 ++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index bd340ec..79bac9a 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -229,10 +229,10 @@ class Mixer(model.Model):
 
                 for phase_i in self.property_package.phase_names:
 
-                    exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                    exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                    exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                    exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                    exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                    exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                    exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                    exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
         self.ndot_in  = self.createVariable("ndot_in", mol/s, "molar input flux", latex_text="\\dot{n}_{in}", is_exposed=True, type='input')
         self.ndot_out = self.createVariable("ndot_out", mol/s, "molar output flux", latex_text="\\dot{n}_{out}", is_exposed=True, type='output')
@@ -344,10 +344,10 @@ class Tank(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
         self.t = self.createVariable("t",s,"time",latex_text="t")
 
@@ -463,10 +463,10 @@ class Valve(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
 
     def DeclareEquations(self):
@@ -573,10 +573,10 @@ class SimplePump(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
 
     def DeclareEquations(self):
@@ -643,10 +643,10 @@ class Heater(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
         self.ndot_in  = self.createVariable("ndot_in", mol/s, "molar input flux", latex_text="\\dot{n}_{in}", is_exposed=True, type='input')
         self.ndot_out = self.createVariable("ndot_out", mol/s, "molar output flux", latex_text="\\dot{n}_{out}", is_exposed=True, type='output')
@@ -764,10 +764,10 @@ class Flash_Dynamic(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
 
         self.t = self.createVariable("t",s,"time",latex_text="t")
@@ -867,12 +867,12 @@ class Flash_SteadyState(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_L_out = self.createVariable('z_{}_L_out',dimless,'Molar fraction for {} phase in liquid output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_L_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the liquid output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
-                exec("self.z_{}_V_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_V_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_L_out = self.createVariable('z_{}_L_out',dimless,'Molar fraction for {} phase in liquid output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_L_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the liquid output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_V_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_V_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
 
         self.t = self.createVariable("t",s,"time",latex_text="t")
-- 
2.43.0


From 1d076d70a7063fc788987347ebb4451ec603adf8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 71/80] fix: an objective function to be maximized was
 minimized

---
 src/sloth/optimization.py | 40 +++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index e5dd0d0..a19afa3 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -49,7 +49,9 @@ class OptimizationProblem:
 
         self.description = description
 
-        self.is_maximization = False
+        self.is_maximization = is_maximization
+
+        self._is_objective_inverted = False
 
         self.bounds = None
 
@@ -124,11 +126,29 @@ class OptimizationProblem:
 
         pass
 
+    def _setMaximization(self, is_maximization):
+
+        self._is_objective_inverted = is_maximization
+
+    def _evaluateFitness(self, x):
+
+        """
+        Evaluate the objective function in the form required by the optimization algorithms, which always minimize
+        """
+
+        f = self.DeclareObjectiveFunction(x)
+
+        if self._is_objective_inverted is True:
+
+            return [-f_i for f_i in f]
+
+        return f
+
     def __call__(self):
 
         #Reimplement virtual methods
 
-        self.fitness = self.DeclareObjectiveFunction
+        self.fitness = self._evaluateFitness
 
         self.get_bounds = self.DeclareSetBounds
 
@@ -536,6 +556,10 @@ class Optimization:
 
             self.optimization_problem.setBounds(self.constraints)
 
+            is_maximization = self.is_maximization is True or self.optimization_problem.is_maximization is True
+
+            self.optimization_problem._setMaximization(is_maximization)
+
             self.optimization_mechanism.set_verbosity(report_frequency)
 
             # Print information
@@ -554,7 +578,7 @@ class Optimization:
 
             self.best_parameters = pop.champion_x
 
-            self.best_fitness = pop.champion_f
+            self.best_fitness = -pop.champion_f if is_maximization is True else pop.champion_f
 
             end_time = time()
 
@@ -566,6 +590,14 @@ class Optimization:
 
                 self.optimization_log = pd.DataFrame(self.optimization_log, columns=self._pagmo_selected_algorithm_log_columns)
 
+                if is_maximization is True:
+
+                    for column_i in ['Best', 'gbest', 'Mean lbest']:
+
+                        if column_i in self.optimization_log.columns:
+
+                            self.optimization_log[column_i] = -self.optimization_log[column_i]
+
             if save_optimization_graph is True:
 
                 generations = np.array(self.getOptimizationLog().loc[:, "Gen"].values.tolist(), dtype=int)
@@ -608,7 +640,7 @@ class Optimization:
             print("\n\tOptimization ended. \n\t Elapsed time:{}".format(strftime("%H:%M:%S", gmtime(elapsed_time))))
 
             if print_output is True:
-                print("Best individual: \n%s -> finess: %s"%(pop.champion_x, pop.champion_f))
+                print("Best individual: \n%s -> finess: %s"%(self.best_parameters, self.best_fitness))
 
             self.run_sucessful=True
 
-- 
2.43.0


From 5cdeeb15349e5e8a36569cf2b630329c634e7f58 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 72/80] fix: the bounds of an optimization problem were
 discarded

---
 src/sloth/optimization.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index a19afa3..b994733 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -53,7 +53,7 @@ class OptimizationProblem:
 
         self._is_objective_inverted = False
 
-        self.bounds = None
+        self.bounds = bounds
 
         self.simulation_instance = simulation_instance
 
@@ -554,7 +554,13 @@ class Optimization:
 
             self.optimization_problem._setSimulationConfiguration(self.simulation_configuration)
 
-            self.optimization_problem.setBounds(self.constraints)
+            # The constraints of the study replace the bounds of the problem only in it
+
+            bounds = self.optimization_problem.bounds
+
+            if self.constraints is not None:
+
+                self.optimization_problem.setBounds(self.constraints)
 
             is_maximization = self.is_maximization is True or self.optimization_problem.is_maximization is True
 
@@ -572,6 +578,8 @@ class Optimization:
 
             prob = pg.problem(self.optimization_problem)
 
+            self.optimization_problem.setBounds(bounds)
+
             pop = pg.population(prob, size=self.optimization_configuration['number_of_individuals'])
 
             pop = self.optimization_mechanism.evolve(pop)
-- 
2.43.0


From 06745e0f3ad45536dae0f2b8c8dd85871f901e16 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 73/80] fix: constraints given as a dictionary could not be
 used

---
 src/sloth/optimization.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index b994733..53943f6 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -317,6 +317,14 @@ class Optimization:
 
     def _getFixedConstraints(self):
 
+        if isinstance(self.constraints, dict):
+
+            # Lower and upper bounds, following the order of the optimized parameters
+
+            names = [par_i if isinstance(par_i, str) else par_i.name for par_i in self.optimization_parameters]
+
+            return ([self.constraints[name_i][0] for name_i in names], [self.constraints[name_i][1] for name_i in names])
+
         return self.constraints
 
     def setOptimizationProblem(self, optimization_problem):
@@ -560,7 +568,7 @@ class Optimization:
 
             if self.constraints is not None:
 
-                self.optimization_problem.setBounds(self.constraints)
+                self.optimization_problem.setBounds(self._getFixedConstraints())
 
             is_maximization = self.is_maximization is True or self.optimization_problem.is_maximization is True
 
-- 
2.43.0


From 9b48d492147887a468205d803be478f56c19b2d8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 74/80] fix: a file which defines only some of the options of
 the optimization could not be used

---
 src/sloth/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 53943f6..dab77fb 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -287,7 +287,7 @@ class Optimization:
 
             with open(optimization_configuration, "r") as read_file:
 
-                self.optimization_configuration = json.load(read_file)
+                self.optimization_configuration = {**default_optimization_configuration, **json.load(read_file)}
 
         elif isinstance(optimization_configuration, dict):
 
-- 
2.43.0


From b6c5a44ebddda73dc8cb854d1c056064ded9d25c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 75/80] fix: an optimization by differential evolution failed
 when its progress was reported

---
 src/sloth/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index dab77fb..8b9455c 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -431,7 +431,7 @@ class Optimization:
 
                 self._pagmo_selected_algorithm = pg.de
 
-                self._pagmo_selected_algorithm_log_columns = ['Gen', 'Fevals', 'Best', 'F', 'CR', 'dx', 'df']
+                self._pagmo_selected_algorithm_log_columns = ['Gen', 'Fevals', 'Best', 'dx', 'df']
 
                 algo = pg.algorithm(pg.de(gen=gen, F=f_w, CR = cr, variant=de_variant, ftol=de_ftol, xtol=de_xtol))
 
-- 
2.43.0


From 3db55a5e8ab726cedd4575b52e7b5822c1973878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 76/80] fix: a flux which the user sets back to a value
 calculated long ago was taken for calculated

---
 src/sloth/unit_op_library.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 79bac9a..daf13a5 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -37,6 +37,10 @@ def _relateFlows(stream):
 
         stream._calculated_flux = (stream.mdot, stream.mdot.value)
 
+    else:
+
+        stream._calculated_flux = None
+
 class HomogeneousMaterialStream(model.Model):
 
     """
-- 
2.43.0


From 043cf2f69b6f72d68d00289949853b8495d12032 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 77/80] fix: a plot without labels for its curves could not be
 drawn

---
 src/sloth/plotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/plotter.py b/src/sloth/plotter.py
index 59e92a8..6635cc2 100644
--- a/src/sloth/plotter.py
+++ b/src/sloth/plotter.py
@@ -69,7 +69,7 @@ class Plotter:
                     plt.plot(x_data[i].reshape(-1),
                              y_data[j].reshape(-1),
                              marker=markers[j],
-                             label=labels[j],
+                             label=labels[j] if labels is not None else None,
                              linewidth=linewidth
                         )
 
@@ -83,7 +83,7 @@ class Plotter:
 
                     plt.plot(x_data[i].reshape(-1),
                              y_data[j].reshape(-1),
-                             label=labels[j],
+                             label=labels[j] if labels is not None else None,
                              linewidth=linewidth
                         )
 
-- 
2.43.0


From 57f5067ac1eb1a07e8c9ef2a4d5fc3d27c6426cf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 78/80] fix: the graph of an optimization could only be drawn
 with a log and a report frequency

---
 src/sloth/optimization.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 8b9455c..84d92e3 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -574,6 +574,12 @@ class Optimization:
 
             self.optimization_problem._setMaximization(is_maximization)
 
+            # The graph is drawn from the progress reported by the algorithm
+
+            if save_optimization_graph is True and report_frequency == 0:
+
+                report_frequency = 1
+
             self.optimization_mechanism.set_verbosity(report_frequency)
 
             # Print information
@@ -600,7 +606,9 @@ class Optimization:
 
             elapsed_time = end_time - start_time
 
-            if optimization_log is True:
+            self.optimization_log = None
+
+            if optimization_log is True or save_optimization_graph is True:
 
                 self.optimization_log = self.optimization_mechanism.extract(self._pagmo_selected_algorithm).get_log()
 
-- 
2.43.0


From 885ff006656e24d1f5e73deda3d12b57465f8ee2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 79/80] fix: the graph of an optimization without improvements
 made the study fail

---
 src/sloth/optimization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 84d92e3..6e972c0 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -639,7 +639,11 @@ class Optimization:
 
                 function_evaluations = np.array(self.getOptimizationLog().loc[:, "Fevals"].values.tolist(), dtype=int)
 
-                plt.xlim(0, max(function_evaluations))
+                # Some algorithms only report the generations which improve the objective function
+
+                if len(function_evaluations) > 0:
+
+                    plt.xlim(0, max(function_evaluations))
 
                 curr_time = datetime.now()
 
-- 
2.43.0


From f1f035a4f8c380cdeb65fee8e7bfd48d17bba9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 80/80] fix: the fluxes of a stream of several species were
 related by the molar mass of the last one

---
 src/sloth/unit_op_library.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index daf13a5..f7eda25 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -11,13 +11,35 @@ from .core.domain import *
 
 #from .unit_op import UnitOp, MaterialStream
 
+def _molarMass(stream):
+
+    """
+    Return the molar mass of a stream, from its molar (or mass) fractions when those were supplied for each one of its phases
+    """
+
+    MW = {phase_i: stream.property_package[phase_i].MW*1e-3 for phase_i in stream.property_package.phase_names}
+
+    z = {phase_i: getattr(stream, 'z_'+phase_i, None) for phase_i in MW}
+
+    if all(z_i is not None and z_i.is_specified is True for z_i in z.values()):
+
+        return sum(z[phase_i].value*MW[phase_i] for phase_i in MW)
+
+    w = {phase_i: getattr(stream, 'w_'+phase_i, None) for phase_i in MW}
+
+    if all(w_i is not None and w_i.is_specified is True for w_i in w.values()):
+
+        return 1./sum(w[phase_i].value/MW[phase_i] for phase_i in MW)
+
+    return stream.property_package["*"].MW*1e-3
+
 def _relateFlows(stream):
 
     """
     Relate the mass and the molar flux of a stream through the molar mass, when only one of them was supplied. A flux calculated before follows the one supplied.
     """
 
-    MW = stream.property_package["*"].MW*1e-3
+    MW = _molarMass(stream)
 
     calculated = getattr(stream, '_calculated_flux', None)
 
-- 
2.43.0

