From 4bc5ea517158cc88b1115c092b6fd7aab56d2194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 01/57] fix: memoized solver results leak between model
 instances

The cache of Memoized lived in the descriptor (shared by every instance of
the class) and was keyed by the keyword arguments only, so the rate constants
of one model could be returned for another one, and a call without
relative_energies was never refreshed.
---
 scaks/descriptors/descriptors.py | 35 ++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index 694f7e0..b01b05a 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -2,8 +2,10 @@
 Definitions of attribute descriptors.
 """
 
-import numpy as np
 import copy
+import functools
+
+import numpy as np
 
 from ..utilities.check_utilities import check_species_definitions
 from ..utilities.check_utilities import check_ref_energies
@@ -377,24 +379,31 @@ class Memoized(object):
     """
     def __init__(self, func):
         self.func = func
-        self.results = {}
 
     def __get__(self, instance, cls):
-        self.instance = instance
-        return self
+        if instance is None:
+            return self
+        return functools.partial(self.__call, instance)
+
+    def __call(self, instance, **kwargs):
+        # NOTE: returned values depend on the state of the instance, so every
+        #       instance has its own results.
+        cache_name = "_memoized_{}".format(self.func.__name__)
+        results = instance.__dict__.setdefault(cache_name, {})
 
-    def __call__(self, **kwargs):
-        # Make all arguments hashable.
-        key = make_hashable(kwargs)
+        # Make all arguments hashable, a copy is used because the arguments
+        # may be changed in place after this call.
+        key = make_hashable(copy.deepcopy(kwargs))
 
-        # NOTE: if relative_energies is None, then we should
+        # NOTE: if relative_energies is not provided, then we should
         #       search the model's relative energies.
-        if "relative_energies" in key and key["relative_energies"] is None:
-            key["relative_energies"] = make_hashable(self.instance._owner.relative_energies)
+        if not key.get("relative_energies"):
+            energies = copy.deepcopy(instance._owner.relative_energies)
+            key["relative_energies"] = make_hashable(energies)
 
         try:
-            return self.results[key]
+            return results[key]
         except KeyError:
-            self.results[key] = self.func(self.instance, **kwargs)
-            return self.results[key]
+            results[key] = self.func(instance, **kwargs)
+            return results[key]
 
-- 
2.43.0


From 32548fe2cf74a7c69656aa25928b23c239b95752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 02/57] fix: mutable attribute defaults are shared by all model
 instances

e.g. a plugin registered by analysis_register() to one model was run by
every other model.
---
 scaks/descriptors/descriptors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index b01b05a..ceaa536 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -32,7 +32,8 @@ class AttrDescriptor(object):
     def __get__(self, instance, owner):
         private_name = "_{}__{}".format(instance.__class__.__name__, self.name)
         if private_name not in instance.__dict__:
-            instance.__dict__[private_name] = self.default
+            # Mutable default value must not be shared between instances.
+            instance.__dict__[private_name] = copy.deepcopy(self.default)
         if self.deepcopy:
             return copy.deepcopy(instance.__dict__[private_name])
         else:
-- 
2.43.0


From 675661bf9ce66cf165c5a99dad2ffc7aaf2d9aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 03/57] fix: dtheta/dt of adsorbates appearing more than once
 in a reaction

Only the first occurrence of an adsorbate was used, so an adsorbate on both
sides of a reaction (or written twice in one state, or also in the
transition state) got a wrong net stoichiometry and element and site
conservation was broken.
---
 scaks/solvers/steady_state_solver.py | 29 ++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 4433bab..0993322 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -133,28 +133,25 @@ class SteadyStateSolver(MeanFieldSolver):
         rxn_equation = RxnEquation(rxn_expression)
         elementary_rxn_list = rxn_equation.to_formula_list()
 
-        # Find formula list index.
-        for formula_list in elementary_rxn_list:
+        # Get the net number of adsorbates produced by the reaction.
+        net_stoichiometry = 0
+        for formula_list, sign in [(elementary_rxn_list[0], -1),
+                                   (elementary_rxn_list[-1], 1)]:
             for formula in formula_list:
-                stoichiometry = formula.stoichiometry()
-                current_species = formula.species_site()
-                if current_species == adsorbate_name:
-                    break
-
-            if current_species == adsorbate_name:
-                # Get state idx to get direction info.
-                state_idx = elementary_rxn_list.index(formula_list)
-                break
+                if formula.species_site() == adsorbate_name:
+                    net_stoichiometry += sign*formula.stoichiometry()
 
-        # If adsorbate name not in reaction, stop.
-        if current_species != adsorbate_name:
+        # If adsorbate is not changed by the reaction, stop.
+        if net_stoichiometry == 0:
             return
 
         # Get rate expression of the elementary equation.
         f_expr, r_expr = self.get_elementary_rate_expression(rxn_expression)
 
+        stoichiometry = abs(net_stoichiometry)
+
         # Adsorbate is consumed
-        if state_idx == 0:
+        if net_stoichiometry < 0:
             if stoichiometry == 1:
                 increase_rate, decrease_rate = r_expr, f_expr
             else:
@@ -192,6 +189,10 @@ class SteadyStateSolver(MeanFieldSolver):
             if single_dtheta_dt:
                 dtheta_dt_expression_list.append(single_dtheta_dt)
 
+        # No reaction changes the coverage of the adsorbate.
+        if not dtheta_dt_expression_list:
+            return '0.0'
+
         # Join the expressions.
         dtheta_dt_expression = ' + '.join(dtheta_dt_expression_list)
 
-- 
2.43.0


From 3cad053f8384da1b35a21efa5359fe9530e009e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:18 +0000
Subject: [PATCH 04/57] fix: analytical Jacobian of reactions mixing an
 adsorbate and free sites

A factor after the adsorbate in a rate expression was joined with '**', the
two parts of a subtracted derivative were not enclosed by parentheses, and
only the first factor of a species written twice was derived.
---
 scaks/solvers/mean_field_solver.py   | 9 +++++++--
 scaks/solvers/steady_state_solver.py | 8 +++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index 06f7137..3b6c75d 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -331,9 +331,14 @@ class MeanFieldSolver(SolverBase):
             if direction == 'r':
                 rate_str = 'kr[' + str(idx) + ']'
 
-            for formula in formula_list:
-                stoichiometry = formula.stoichiometry()
+            # Merge the species written more than once in the state.
+            species_sites = [formula.species_site() for formula in formula_list]
+            for idx_sp, formula in enumerate(formula_list):
                 species_name = formula.species_site()
+                if species_name in species_sites[:idx_sp]:
+                    continue
+                stoichiometry = sum(other.stoichiometry() for other in formula_list
+                                    if other.species_site() == species_name)
                 #get type of species
                 if '*' in species_name:
                     if stoichiometry == 1:
diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 0993322..f5e9087 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -376,7 +376,7 @@ class SteadyStateSolver(MeanFieldSolver):
             regex = r"(.*)\*(theta\['" + adsorbate_name + r"'\])(\*{2}(\d)|)(\*(.*)|)"
             m = re.search(regex, term_expression)
             if m.group(6):
-                site_part = m.group(1) + '*' + m.group(6)
+                site_part = m.group(1) + '*' + m.group(7)
             else:
                 site_part = m.group(1)
             adsorbate_part = m.group(2) + m.group(3)
@@ -428,6 +428,12 @@ class SteadyStateSolver(MeanFieldSolver):
                                                                 term_expression)
                          for term_expression in terms]
 
+        # A derived term with more than one part must be enclosed by parentheses
+        # if it is subtracted.
+        for idx, operator in enumerate(operators, start=1):
+            if operator == '-' and ' + ' in derived_terms[idx]:
+                derived_terms[idx] = '(' + derived_terms[idx] + ')'
+
         # Combine 2 lists.
         derived_poly_list = []
         for combination in zip(derived_terms, operators):
-- 
2.43.0


From 30cc5eb72e74275643ceed27312311ce8914ab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:18 +0000
Subject: [PATCH 05/57] fix: symbolic Jacobian only worked for models with two
 adsorbates

---
 scaks/solvers/steady_state_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index f5e9087..c4ce978 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -631,7 +631,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         # Allocate memories for jacobian matrix.
         m = n = len(dtheta_dt_syms)
-        sym_jacobian = [[0.0]*m, [0.0]*n]
+        sym_jacobian = [[0.0]*n for _ in range(m)]
 
         # dtheta/dt (row).
         for i in range(m):
@@ -661,7 +661,7 @@ class SteadyStateSolver(MeanFieldSolver):
         sym_jacobian = self.analytical_jacobian_sym()
 
         m = n = len(sym_jacobian)
-        num_jacobian = [[0.0]*m, [0.0]*n]
+        num_jacobian = [[0.0]*n for _ in range(m)]
 
         for i in range(m):
             for j in range(n):
-- 
2.43.0


From 26d465b0659b6bbf6b23992d107f4731622bb3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:18 +0000
Subject: [PATCH 06/57] fix: symbolic route raised KeyError for models with
 liquid species

---
 scaks/solvers/mean_field_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index 3b6c75d..c5fa211 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -994,7 +994,7 @@ class MeanFieldSolver(SolverBase):
         c_dict = {}
         liquid_names = self._owner.liquid_names
         for c_sym, liquid_name in zip(self._c_sym, liquid_names):
-            c_dict.setdefault(c_sym, self._c[liquid_names])
+            c_dict.setdefault(c_sym, self._c[liquid_name])
 
         return c_dict
 
-- 
2.43.0


From 189d5d5e45df9f241289d19a3886bd9f02a7dc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:18 +0000
Subject: [PATCH 07/57] fix: two-letter elements were split into two elements
 by ChemFormula

e.g. the balanced 'Cl2_g + 2*_s -> 2Cl_s' was rejected because 'Cl2' was
counted as one 'C' and two 'l'.
---
 scaks/parsers/rxn_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/parsers/rxn_parser.py b/scaks/parsers/rxn_parser.py
index 16ff33f..35b18c4 100644
--- a/scaks/parsers/rxn_parser.py
+++ b/scaks/parsers/rxn_parser.py
@@ -296,7 +296,7 @@ class ChemFormula(object):
         """
         self.__formula = formula
         self.__formula_regex = re.compile(r'(\d*)(([\w\*-]*)_(\d*)([a-zA-Z\*]+))')
-        self.__sp_regex = re.compile(r'([a-zA-Z\*])(\d*)')
+        self.__sp_regex = re.compile(r'([A-Z][a-z]?|[a-z\*])(\d*)')
 
         self.__split()
 
-- 
2.43.0


From 1ea9539bacd401c31b49e067937e4fda252185d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 08/57] fix: adding formulas, conserving non-states and
 repeated species in a state

ChemFormula + ChemFormula raised TypeError, ChemState.conserve() returned
(instead of raised) the error for an invalid argument, and
get_species_site_dict() lost the stoichiometry of a species written twice.
---
 scaks/parsers/rxn_parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scaks/parsers/rxn_parser.py b/scaks/parsers/rxn_parser.py
index 35b18c4..17eb93b 100644
--- a/scaks/parsers/rxn_parser.py
+++ b/scaks/parsers/rxn_parser.py
@@ -173,8 +173,11 @@ class ChemState(object):
         """
         formula_list = self.tolist()
 
-        species_site_dict = {formula.species_site(): formula.stoichiometry()
-                             for formula in formula_list}
+        species_site_dict = {}
+        for formula in formula_list:
+            species_site = formula.species_site()
+            species_site_dict.setdefault(species_site, 0)
+            species_site_dict[species_site] += formula.stoichiometry()
 
         return species_site_dict
 
@@ -234,7 +237,7 @@ class ChemState(object):
         # Check input parameter.
         if not isinstance(another, self.__class__):
             msg = "Parameter another must be instance of ChemState."
-            return ParameterError(msg)
+            raise ParameterError(msg)
 
         # Check elements.
         dict1 = self.get_elements_dict()
@@ -303,7 +306,7 @@ class ChemFormula(object):
     def __add__(self, formula_inst):
         """ Overload + operation function.
         """
-        chem_state = self.formula + ' + ' + formula_inst.formula
+        chem_state = self.formula() + ' + ' + formula_inst.formula()
         return ChemState(chem_state)
 
     def __split(self):
-- 
2.43.0


From 25d335c9d8bc5a7b7661555e194b89829159901c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 09/57] fix: set_plotter() raised NameError and set_corrector()
 accepted anything

A second definition of set_corrector() without the type check hid the first.
---
 scaks/models/kinetic_model.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index e6b7417..f3d72b2 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -404,15 +404,7 @@ class KineticModel(object):
         :param plotter: Valid plotter object
         :type plotter: any
         '''
-        setattr(self, mangled_name(self, 'plotter'), solver)
-
-    def set_corrector(self, corrector):
-        ''' Set corrector for current model
-
-        :param corrector: Valid corrector object
-        :type corrector: any
-        '''
-        setattr(self, mangled_name(self, 'corrector'), corrector)
+        setattr(self, mangled_name(self, 'plotter'), plotter)
 
     @Property
     def log_allowed(self):
-- 
2.43.0


From 3e4b21e5f17f24950b638f68d36cb1c31d51c55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 10/57] fix: stoichiometry of gas species in rates and energy
 corrections

A gas with a coefficient ('2CO_g') raised KeyError when pressures were
included or collision theory was used, and its thermodynamic correction was
skipped (shomate) or added only once (entropy).
---
 scaks/correctors/thermodynamic_corrector.py |  2 +-
 scaks/solvers/solver_base.py                | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/scaks/correctors/thermodynamic_corrector.py b/scaks/correctors/thermodynamic_corrector.py
index 1218c6d..dd205ef 100644
--- a/scaks/correctors/thermodynamic_corrector.py
+++ b/scaks/correctors/thermodynamic_corrector.py
@@ -300,7 +300,7 @@ class ThermodynamicCorrector(CorrectorBase):
         for formula_list in formula_lists:
             delta = 0.0
             for formula in formula_list:
-                delta += correct_func(formula.formula())
+                delta += formula.stoichiometry()*correct_func(formula.species_site())
             deltas.append(delta)
 
         self.__change_relative_energies(relative_energies, rxn_idx, deltas)
diff --git a/scaks/solvers/solver_base.py b/scaks/solvers/solver_base.py
index 60f8fe9..6f4e303 100644
--- a/scaks/solvers/solver_base.py
+++ b/scaks/solvers/solver_base.py
@@ -147,17 +147,19 @@ class SolverBase(ModelShell):
         # Include pressures.
         if include_pressure:
             rxn_equation = RxnEquation(rxn_expression)
-            f = lambda gas: self._owner.species_definitions[gas]["pressure"]
+            species_definitions = self._owner.species_definitions
+            f = lambda gas: (species_definitions[gas.species_site()]["pressure"]**
+                             gas.stoichiometry())
 
             # Forward rate.
             adsorption_gases = rxn_equation.adsorption_gases()
-            pressures = [f(gas.formula()) for gas in adsorption_gases]
+            pressures = [f(gas) for gas in adsorption_gases]
             p = reduce(mul, pressures) if pressures else 1.0
             rf = p*rf
 
             # Reverse rate.
             desorption_gases = rxn_equation.desorption_gases()
-            pressures = [f(gas.formula()) for gas in desorption_gases]
+            pressures = [f(gas) for gas in desorption_gases]
             p = reduce(mul, pressures) if pressures else 1.0
             rr = p*rr
 
@@ -231,7 +233,7 @@ class SolverBase(ModelShell):
             # Get gas pressure.
             idx = is_types.index("gas")
             formula = istate[idx]
-            gas_name = formula.formula()
+            gas_name = formula.species_site()
             m = ParserBase.get_molecular_mass(formula.species(), absolute=True)
 
             if include_pressure:
@@ -285,7 +287,7 @@ class SolverBase(ModelShell):
             # Get gas pressure.
             idx = fs_types.index("gas")
             formula = fstate[idx]
-            gas_name = formula.formula()
+            gas_name = formula.species_site()
 
             if include_pressure:
                 p = P0*self._owner.species_definitions[gas_name]["pressure"]
-- 
2.43.0


From 9ea6143028531b06962c5385a627cd12ce31c2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 11/57] fix: relative energies without forward barriers were
 not rejected

---
 scaks/solvers/mean_field_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index c5fa211..1f36d86 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -213,7 +213,7 @@ class MeanFieldSolver(SolverBase):
                 raise AttributeError(msg)
 
         # Check input parameter.
-        if "Gaf" and "Gar" not in relative_energies:
+        if "Gaf" not in relative_energies or "Gar" not in relative_energies:
             msg = "'Gaf' and 'Gar' must be in relative_energies."
             raise ParameterError(msg)
 
-- 
2.43.0


From b741bf2212032b249e36b9677cd92096516b06b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 12/57] fix: AttributeError in entropy_correction() of light
 molecules at low temperature

---
 scaks/correctors/thermodynamic_corrector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/correctors/thermodynamic_corrector.py b/scaks/correctors/thermodynamic_corrector.py
index dd205ef..efb9683 100644
--- a/scaks/correctors/thermodynamic_corrector.py
+++ b/scaks/correctors/thermodynamic_corrector.py
@@ -216,7 +216,7 @@ class ThermodynamicCorrector(CorrectorBase):
                 if ratio >= 0.3:
                     msg_template = "T/theta = {:.3e} is larger than 0.3, big error may be expected"
                     msg = msg_template.format(ratio)
-                    self.logger.warning(msg)
+                    self.__logger.warning(msg)
         # Nonlinear molecule.
         elif len(thetas) == 3:
             product = reduce(lambda x, y: x*y, thetas)
-- 
2.43.0


From 817641c7211daeebafa989d676fe65d06e633ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:46 +0000
Subject: [PATCH 13/57] fix: ConstrainedNewton failed in every iteration

The step size of scipy's golden() is a numpy number whose product with a
high-precision matrix is not a matrix.
---
 scaks/solvers/rootfinding_iterators.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index 2199205..9829c99 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -129,11 +129,13 @@ class ConstrainedNewton(RootfindingIterator):
                 raise ValueError("ZeroDivisionError!")
 
             #use golden method to get optimal step size
+            # NOTE: golden() works on python floats, while the product of a
+            #       numpy number and a high-precision matrix is not a matrix.
             def fl(l):
-                x1 = self._matrix(x0) + l*s
+                x1 = self._matrix(x0) + self._mpfloat(l)*s
                 fx = self._matrix(f(tuple(x1)))
-                return norm(fx)
-            l = golden(fl)
+                return float(norm(fx))
+            l = self._mpfloat(golden(fl))
 #            print l
 #            l = mp.mpf('1.0')
             x1 = self._matrix(x0) + l*s  # matrix
-- 
2.43.0


From bcaabfb87712c50bd1e22e872f38514eb5323c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:46 +0000
Subject: [PATCH 14/57] fix: reported error of a good initial guess ignored the
 given energies

---
 scaks/solvers/steady_state_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index c4ce978..dac2025 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -816,7 +816,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     # Get error.
                     fx = self.steady_state_function(c0, relative_energies)  # dtheta/dts
                     norm = self._norm(fx)
-                    resid = self.get_residual(c0)
+                    resid = self.get_residual(c0, relative_energies)
                     error = min(norm, resid)
                     self._error = error
                     if self._owner.log_allowed:
-- 
2.43.0


From 152a90d913378fdf7cd0d9d519ad2d32be362776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 15/57] fix: unphysical roots were returned as steady state
 coverages

Roots whose coverages exceed the total number of sites were accepted, and a
guess of the hybrid method was not constrained like the initial one.
---
 scaks/solvers/steady_state_solver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index dac2025..a6915bf 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -887,6 +887,11 @@ class SteadyStateSolver(MeanFieldSolver):
                                     break
                                 else:
                                     lt_zero = False
+                            # Check whether a site is over-occupied
+                            cvgs_dict = self._cvg_tuple2dict(x)
+                            for site_name in self._owner.site_names:
+                                if cvgs_dict[site_name] < -self._owner.tolerance:
+                                    lt_zero = True
                             # check END #
                             if not lt_zero:
                                 if self._owner.log_allowed:
@@ -946,6 +951,7 @@ class SteadyStateSolver(MeanFieldSolver):
                         break
                     else:
                         c0 = self._owner.hybrid_method(self._owner, icvg_counter)
+                        c0 = self.__constrain_coverages(c0)
                         icvg_counter += 1
             # }}}
             except ZeroDivisionError:
@@ -957,6 +963,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     break
                 else:
                     c0 = self._owner.hybrid_method(self._owner, icvg_counter)
+                    c0 = self.__constrain_coverages(c0)
                     icvg_counter += 1
             finally:
                 for ap in self._owner.analysis:
-- 
2.43.0


From e906d526771c294436661d0eb4f147b071a8a6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 16/57] fix: analysis plugins finalized without setup or with a
 wrong counter

finalize() was called even if no Newton iteration was started (good initial
guess), and got the counter of the next iteration when the hybrid method had
supplied a new guess.
---
 scaks/solvers/steady_state_solver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index a6915bf..9758115 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -801,6 +801,8 @@ class SteadyStateSolver(MeanFieldSolver):
 
         converged = False  # Flag for convergence.
         while not cancel:  # outer loop
+            # Counter of the Newton iteration that plugins have been set up for.
+            analysis_counter = None
             try:
             # {{{
                 # Good initial coverages.
@@ -864,6 +866,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     self.__logger.info('-'*60)
 
                 # Setup analysis plugins
+                analysis_counter = icvg_counter
                 for ap in self._owner.analysis:
                     ap.setup(self._owner, icvg_counter)
 
@@ -966,8 +969,9 @@ class SteadyStateSolver(MeanFieldSolver):
                     c0 = self.__constrain_coverages(c0)
                     icvg_counter += 1
             finally:
-                for ap in self._owner.analysis:
-                    ap.finalize(self._owner, icvg_counter)
+                if analysis_counter is not None:
+                    for ap in self._owner.analysis:
+                        ap.finalize(self._owner, analysis_counter)
 
         ##############    main loop end   #################
 
-- 
2.43.0


From 9a4350a65ba9a7c271fc0c107e59b4b90b65356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 17/57] fix: archived steady state coverages were never reused
 by run()

The key looked up is not the one the solver archives.
---
 scaks/models/micro_kinetic_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index 1bf97a1..cef28f4 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -217,8 +217,8 @@ class MicroKineticModel(KineticModel):
         elif os.path.exists(self.data_file):
             with open(self.data_file, 'rb') as f:
                 data = pickle.load(f)
-            init_guess = 'steady_state_coverage'
-            if init_guess in data:
+            init_guess = 'steady_state_coverages'
+            if len(data.get(init_guess, ())) == len(self.adsorbate_names):
                 if self.log_allowed:
                     msg = 'use coverages in {} as initial guess...'.format(self.data_file)
                     self._logger.info(msg)
-- 
2.43.0


From aadbff831562adf8a8d4d021833adbb3620f0413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 18/57] fix: run() without initial coverages failed in coarse
 guess

---
 scaks/models/micro_kinetic_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index cef28f4..ca851e8 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -233,6 +233,7 @@ class MicroKineticModel(KineticModel):
         else:
             if self.log_allowed:
                 self._logger.info('Use model\'s hybrid method to guess initial coverages')
+            init_cvgs = self.hybrid_method(self, 0)
 
         # Solve steady state coverages.
         # Use scipy.optimize.fsolve or not (fast but low-precision).
-- 
2.43.0


From b002537fbee003e2c92bef0458c79b367d98faf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 19/57] fix: run(fsolve=True) raised AttributeError, coverages
 and error were not set

---
 scaks/solvers/steady_state_solver.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 9758115..8faf2c4 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -760,7 +760,12 @@ class SteadyStateSolver(MeanFieldSolver):
         .. note::
             keys ":obj:`Gaf` and ":obj:`Gar` must be in relative energies dict
         '''
-        return self.coarse_steady_state_cvgs(c0, relative_energies)
+        converged_cvgs = self.coarse_steady_state_cvgs(c0, relative_energies)
+
+        self._coverages = tuple(converged_cvgs)
+        self._error = self.get_residual(self._coverages, relative_energies)
+
+        return converged_cvgs
 
     def get_steady_state_cvgs(self, c0=None, single_pt=False, relative_energies=None):
         """ Function to get steady state coverages.
-- 
2.43.0


From 81e47b00b83bebc91f9127ee7bf8a089b227aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 20/57] fix: ZeroDivisionError in reversibilities of a reaction
 without forward rate

---
 scaks/solvers/mean_field_solver.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index 1f36d86..e015437 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -478,7 +478,13 @@ class MeanFieldSolver(SolverBase):
         if len(rfs) != len(rrs):
             raise ValueError('Different rates number is detected.')
 
-        reversibilities = [float(rr/rf) for rf, rr in zip(rfs, rrs)]
+        def reversibility(rf, rr):
+            # A reaction may have no forward rate e.g. gas with no pressure.
+            if rf == 0.0:
+                return float('nan') if rr == 0.0 else float('inf')
+            return float(rr/rf)
+
+        reversibilities = [reversibility(rf, rr) for rf, rr in zip(rfs, rrs)]
 
         # Ouput log info.
         self.__log_reversibilities(reversibilities)
-- 
2.43.0


From 0cfce2dfc6fb1d0e17fde3b6fbd8904f97a26e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 21/57] fix: XRC calculation left the solver in a perturbed
 steady state

A second XRC calculation used the coverages of the last perturbed model as
reference, and the perturbed coverages were archived.
---
 scaks/solvers/steady_state_solver.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 8faf2c4..a60c7e2 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -1105,6 +1105,10 @@ class SteadyStateSolver(MeanFieldSolver):
                          gas_name=gas_name,
                          relative_energies=relative_energies)
 
+        # The steady state of the unperturbed model.
+        init_error = getattr(self, "_error", None)
+        init_archive = dict(self._archived_data_dict)
+
         # Original rate constants.
         kfs, _ = self.get_rate_constants(relative_energies=relative_energies)
 
@@ -1163,6 +1167,11 @@ class SteadyStateSolver(MeanFieldSolver):
             if self._owner.log_allowed:
                 self.__logger.info("XRC({}) = {:.2e}\n".format(rxn_expressions[i], float(XRC)))
 
+        # Restore the steady state changed by perturbations.
+        self._coverages, self._error = init_guess, init_error
+        for data_name, data in init_archive.items():
+            self.archive_data(data_name, data)
+
         # Ouput log info.
         self.__log_single_XRC(XRCs=XRCs, gas_name=gas_name)
 
-- 
2.43.0


From 57418d3ca6cdfcfd138ba81bc62e8d31f32d513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 22/57] fix: split_seq() lost elements when the length is not
 divisible by the size

---
 scaks/mpicommons.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scaks/mpicommons.py b/scaks/mpicommons.py
index fe9f49d..bc842fb 100644
--- a/scaks/mpicommons.py
+++ b/scaks/mpicommons.py
@@ -62,9 +62,8 @@ class MPIUtil(object):
         :param sequence: The data sequence to be divided for parallel processing
         :type sequence: list
         '''
-        starts = [i for i in range(0, len(sequence), len(sequence)//self.size)]
-        ends = starts[1: ] + [len(sequence)]
-        start, end = list(zip(starts, ends))[self.rank]
+        start = len(sequence)*self.rank//self.size
+        end = len(sequence)*(self.rank + 1)//self.size
 
         return sequence[start: end]
 
-- 
2.43.0


From 85fa58ae198c5f8a1c27102c132945ac42f65af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 23/57] fix: coverages analysis wrote a data file which can not
 be executed

---
 scaks/solvers/kmc_plugins/coverages_analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scaks/solvers/kmc_plugins/coverages_analysis.py b/scaks/solvers/kmc_plugins/coverages_analysis.py
index eff44ab..a6ef13d 100644
--- a/scaks/solvers/kmc_plugins/coverages_analysis.py
+++ b/scaks/solvers/kmc_plugins/coverages_analysis.py
@@ -97,8 +97,7 @@ class CoveragesAnalysis(KMCAnalysisPlugin):
             times_str = "times = []\n"
             steps_str = "steps = []\n"
             coverages_str = "coverages = {}\n".format([[]]*len(self.__possible_types))
-            possible_types_update = [f"'{string}'" for string in self.__possible_types]
-            possible_types_str = get_list_string("possible_types", possible_types_update)
+            possible_types_str = get_list_string("possible_types", self.__possible_types)
             with open(self.__filename, "w") as f:
                 content = (file_header + times_str + steps_str +
                            coverages_str + "\n" + possible_types_str)
@@ -138,7 +137,8 @@ class CoveragesAnalysis(KMCAnalysisPlugin):
         """
         if mpi.is_master:
             # Write to file.
-            self.__flush()
+            if self.__coverages:
+                self.__flush()
 
             # Info output.
             msg = "coverages informations are written to {}".format(self.__filename)
-- 
2.43.0


From 0a41264ba6305e92963e1c8284e49378fa522ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 24/57] fix: process mapping had entries of reverse processes
 which do not exist

---
 scaks/solvers/kmc_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_solver.py b/scaks/solvers/kmc_solver.py
index 81d0552..0f2af98 100644
--- a/scaks/solvers/kmc_solver.py
+++ b/scaks/solvers/kmc_solver.py
@@ -209,7 +209,7 @@ class KMCSolver(SolverBase):
                     processes.append(rprocess)
 
                 # Add process reaction mapping.
-                if not fast:
+                if not fast and not redist:
                     process_mapping = "{}(<-)".format(process_dict["reaction"])
                     self.__process_mapping.append(process_mapping)
 
-- 
2.43.0


From 63206f453c04e18b5a306b254d77f1907e121107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 25/57] fix: ZeroDivisionError in frequency analysis with a
 single steady step

---
 scaks/solvers/kmc_plugins/frequency_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_plugins/frequency_analysis.py b/scaks/solvers/kmc_plugins/frequency_analysis.py
index c67f300..ff5577c 100644
--- a/scaks/solvers/kmc_plugins/frequency_analysis.py
+++ b/scaks/solvers/kmc_plugins/frequency_analysis.py
@@ -126,7 +126,8 @@ class FrequencyAnalysis(KMCAnalysisPlugin):
         # Calculate rates.
         reaction_rates = {}
         for reaction, occurency in steady_reaction_occurencies.items():
-            rate = occurency/(delta_t*nsites)
+            # No time elapsed when only one step was registered.
+            rate = occurency/(delta_t*nsites) if delta_t > 0.0 else 0.0
             reaction_rates.setdefault(reaction, rate)
         reaction_rates_str = get_dict_string("reaction_rates", reaction_rates)
 
-- 
2.43.0


From 280f5509b299bdbdcf486595e795c1c29dba1c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 26/57] fix: first TOF interval ignored the start time of the
 simulation

---
 scaks/solvers/kmc_plugins/tof_analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scaks/solvers/kmc_plugins/tof_analysis.py b/scaks/solvers/kmc_plugins/tof_analysis.py
index ec2e687..5b30c45 100644
--- a/scaks/solvers/kmc_plugins/tof_analysis.py
+++ b/scaks/solvers/kmc_plugins/tof_analysis.py
@@ -73,6 +73,9 @@ class TOFAnalysis(KMCAnalysisPlugin):
         # }}}
 
     def setup(self, step, time, configuration, interactions):
+        # The first interval begins when the simulation starts.
+        self.__start_time = time
+
         # Create statistic data file.
         variables_str = ("times = []\ntofs = []\n")
         process_mapping = self.__kmc_model.process_mapping
-- 
2.43.0


From 41c627d049c501a6f2fbc788ba0e92767ec50eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 27/57] fix: analysis plugin classes did not inherit the
 methods of their parents

---
 scaks/plugins/metaclasses.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scaks/plugins/metaclasses.py b/scaks/plugins/metaclasses.py
index 35d470f..ea2028c 100644
--- a/scaks/plugins/metaclasses.py
+++ b/scaks/plugins/metaclasses.py
@@ -13,11 +13,19 @@ class AnalysisMeta(type):
             if type(interval) is not int or interval <= 0:
                 raise TypeError('analysis interval must be a positive integer')
 
+        # Plugin classes among the parents, the interface class is not included.
+        plugin_bases = [c for base in bases for c in base.__mro__
+                        if not (isinstance(c, AnalysisMeta) and
+                                not any(isinstance(b, AnalysisMeta) for b in c.__bases__))]
+
         for method_name in ['setup', 'register_step', 'finalize']:
             method = attrs.get(method_name, None)
             if method is not None and not callable(method):
                 msg = "{} must be a callable object".format(method)
                 raise AttributeError(msg)
+            # Methods of parent plugins are inherited.
+            elif method is None and any(method_name in vars(c) for c in plugin_bases):
+                continue
             # Set default interface methods.
             elif method is None:
                 if method_name == 'setup':
-- 
2.43.0


From c212c9204df2b020400688ab34502aa097c208c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 28/57] fix: strings were not escaped in generated list and
 dict definitions

---
 scaks/utilities/format_utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/utilities/format_utilities.py b/scaks/utilities/format_utilities.py
index e12adc0..36eea25 100644
--- a/scaks/utilities/format_utilities.py
+++ b/scaks/utilities/format_utilities.py
@@ -38,7 +38,7 @@ def get_list_string(var_name, list_obj, ncols=5):
 
         # add single quotes for string
         if isinstance(elem, str):
-            data += ("'" + elem + "', ")
+            data += (repr(elem) + ', ')
         else:
             data += (str(elem) + ', ')
     end = '\n]\n\n'
@@ -60,7 +60,7 @@ def get_dict_string(var_name, dict_obj):
     data = ""
     for key in sorted(dict_obj):
         value = dict_obj[key]
-        data += "    '{}': {},\n".format(key, value)
+        data += "    {!r}: {!r},\n".format(key, value)
     end = "}\n\n"
 
     content = begin + data + end
-- 
2.43.0


From be1a035cc2c846d24176d2fba11f245117e2785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 29/57] fix: argument checks of CoordsGroup and moving an empty
 group

---
 scaks/utilities/coordinate_utilities.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index efb1581..4d7c5e5 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -83,6 +83,11 @@ class CoordsGroup(object):
         if elements is None:
             elements = ["V"]*len(coordinates)
 
+        if len(coordinates) != len(elements):
+            msg = "Length of coordinates({}) and elements({}) are different."
+            msg = msg.format(len(coordinates), len(elements))
+            raise ValueError(msg)
+
         for coordinate, element in zip(coordinates, elements):
             self.append(coordinate, element)
 
@@ -99,11 +104,11 @@ class CoordsGroup(object):
             move_vector = [0.0, 0.0, 0.0]
 
         # Check the parameter.
-        if type(move_vector) is not list and len(move_vector) != 3:
+        if type(move_vector) is not list or len(move_vector) != 3:
             raise ValueError("move_vector must be a list of three float numbers.")
 
         move_vector = np.array(move_vector)
-        ori_coords = np.array(self.__coords)
+        ori_coords = np.array(self.__coords).reshape(-1, 3)
         new_coords = (ori_coords + move_vector).tolist()
 
         return CoordsGroup(new_coords, copy.copy(self.__elements))
-- 
2.43.0


From 97d92bbd7ab985b971785d1916f7b28a035b4c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 30/57] fix: total reaction of networks with reversed steps,
 spectators or uneven coefficients

---
 scaks/parsers/parser_base.py | 39 ++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/scaks/parsers/parser_base.py b/scaks/parsers/parser_base.py
index 9028a4c..842ba28 100644
--- a/scaks/parsers/parser_base.py
+++ b/scaks/parsers/parser_base.py
@@ -3,6 +3,7 @@ import re
 import logging
 
 import numpy as np
+import sympy
 
 from ..descriptors.descriptors import *
 from .. import ModelShell
@@ -188,27 +189,25 @@ class ParserBase(ModelShell):
         # {{{
         site_matrix, reapro_matrix = self.get_stoichiometry_matrices()
 
-        # Helper function to get null space of transposition of site_matrix.
-        def null(A, eps=1e-10):
-            u, s, vh = np.linalg.svd(A, full_matrices=1, compute_uv=1)
-            null_space = np.compress(s <= eps, vh, axis=0)
-            return null_space.T
-
-        x = null(site_matrix.T)  # basis of null space
-        if not x.any():  # x is not empty
+        # Stoichiometric numbers of steps are in null space of transposition
+        # of site_matrix, use the first route with a net reaction.
+        null_space = sympy.Matrix(site_matrix.T.astype(int).tolist()).nullspace()
+        reapro_coeffs = sympy.Matrix(reapro_matrix.astype(int).tolist())
+        for x in null_space:
+            # Most of steps go forward.
+            if sum(x) < 0:
+                x = -x
+            total_coefficients = list(x.T*reapro_coeffs)
+            if any(total_coefficients):
+                break
+        else:
             raise ValueError('Failed to get basis of nullspace.')
 
-        x = [abs(i) for i in x.T.tolist()[0]]
-        #convert entries of x to integer
-        min_x = min(x)
-        x = [round(i/min_x, 1) for i in x]
-        x = np.matrix(x)
-        total_coefficients = (x*reapro_matrix).tolist()[0]
-
-        # cope with small differences between coeffs
-        abs_total_coefficients = list(map(abs, total_coefficients))
-        min_coeff = min(abs_total_coefficients)
-        total_coefficients = [int(i/min_coeff) for i in total_coefficients]
+        # Convert coefficients to the smallest integers.
+        multiple = sympy.ilcm(1, *[i.q for i in total_coefficients])
+        total_coefficients = [int(i*multiple) for i in total_coefficients]
+        divisor = sympy.igcd(0, *total_coefficients)
+        total_coefficients = [i//divisor for i in total_coefficients]
 
         # create total rxn expression
         reactants_list, products_list = [], []
@@ -223,7 +222,7 @@ class ParserBase(ModelShell):
                 else:
                     coefficient = str(coefficient)
                 products_list.append(coefficient + sp_name)
-            else:  # for reactants
+            elif coefficient > 0:  # for reactants
                 coefficient = int(coefficient)
                 if coefficient == 1:
                     coefficient = ''
-- 
2.43.0


From bd8babd615b6081bebe3acc0723736f2ef8dd69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 31/57] fix: MDNewton yielded the function value of a rejected
 step

---
 scaks/solvers/rootfinding_iterators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index 9829c99..d9178e4 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -251,11 +251,11 @@ class MDNewton(RootfindingIterator):
                     self.logger.info("Found stationary point.")
                     cancel = True
                     break
-                fx = mp.matrix(f(x1))
-                newnorm = norm(fx)
+                newfx = mp.matrix(f(x1))
+                newnorm = norm(newfx)
                 if newnorm < fxnorm:
                     # new x accepted
-                    fxnorm = newnorm
+                    fx, fxnorm = newfx, newnorm
                     x0 = x1
                     break
                 l /= 2
-- 
2.43.0


From 257c02ec68501a66022d069a5ae779732df0d46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 32/57] fix: Jacobian of reactions where the free site follows
 the adsorbate

Restores the group of the factors behind the adsorbate, which 3cad053 mixed up.
---
 scaks/solvers/steady_state_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index a60c7e2..fb8e368 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -376,7 +376,7 @@ class SteadyStateSolver(MeanFieldSolver):
             regex = r"(.*)\*(theta\['" + adsorbate_name + r"'\])(\*{2}(\d)|)(\*(.*)|)"
             m = re.search(regex, term_expression)
             if m.group(6):
-                site_part = m.group(1) + '*' + m.group(7)
+                site_part = m.group(1) + '*' + m.group(6)
             else:
                 site_part = m.group(1)
             adsorbate_part = m.group(2) + m.group(3)
-- 
2.43.0


From 9d7f17d6fa95194f49e8e5ee9f5272860723d0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 33/57] fix: AttributeError in classified_numerical_jacobian()

mpmath matrices have no reshape().
---
 scaks/solvers/mean_field_solver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index e015437..6f7f98e 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -598,8 +598,7 @@ class MeanFieldSolver(SolverBase):
         of G(intermediate or transition state) to avoid stagnated or
         diverging residual.
         """
-        x = self._matrix(x)
-        x = self._matrix(x).reshape(-1, 1)
+        x = self._matrix(list(x))  # column vector
         fx = self._matrix(f(x))
         m = len(fx)
         n = len(x)
-- 
2.43.0


From e92cd8f22a0f5b8cc7d61eb245048a9fb43c93cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 34/57] fix: event analysis of a lattice on which no process is
 available any more

---
 scaks/solvers/kmc_plugins/event_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_plugins/event_analysis.py b/scaks/solvers/kmc_plugins/event_analysis.py
index d748107..df59902 100644
--- a/scaks/solvers/kmc_plugins/event_analysis.py
+++ b/scaks/solvers/kmc_plugins/event_analysis.py
@@ -156,7 +156,9 @@ class EventAnalysis(KMCAnalysisPlugin):
 
         # Get probability table.
         total_rates = [n*r for n, r in zip(process_available_sites, process_rates)]
-        probabilities = [r/sum(total_rates) for r in total_rates]
+        # No process can be picked when no site is available any more.
+        sum_rates = sum(total_rates)
+        probabilities = [r/sum_rates if sum_rates > 0.0 else 0.0 for r in total_rates]
 
         table = []
         for i, (rxn, n, r, p) in enumerate(zip(reactions,
-- 
2.43.0


From 82d696cbb154df332f74e2a4224f623c565f23d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 35/57] fix: a refused element no longer leaves its coordinate
 in the group

---
 scaks/utilities/coordinate_utilities.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index 4d7c5e5..44562ec 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -59,17 +59,15 @@ class CoordsGroup(object):
         :param element: element type, default value is "V"
         :type element: str
         """
-        # Append coordinates.
+        # Check before the group is changed.
         self.__check_coordinate(coordinate)
-        self.__coords.append(coordinate)
-
-        # Append elements.
         if element is None:
-            self.__elements.append("V")
-        else:
-            if type(element) is not str:
-                raise ValueError("element must be a string.")
-            self.__elements.append(element)
+            element = "V"
+        elif type(element) is not str:
+            raise ValueError("element must be a string.")
+
+        self.__coords.append(coordinate)
+        self.__elements.append(element)
 
     def extend(self, coordinates, elements=None):
         """ Function to add new coordinates.
-- 
2.43.0


From b8c97e2090f66e5edd4b5c02df2c702c94cec647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 36/57] fix: parser works with default species definitions and
 returns a copy of them

---
 scaks/parsers/parser_base.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/scaks/parsers/parser_base.py b/scaks/parsers/parser_base.py
index 842ba28..2bc8faa 100644
--- a/scaks/parsers/parser_base.py
+++ b/scaks/parsers/parser_base.py
@@ -25,11 +25,6 @@ class ParserBase(ModelShell):
         # Set elementary parse regex(compiled)
         self.__regex_dict = {}
 
-        # Parser's species definition
-        # NOTE: parser's species definitions is the reference of model's.
-        attribute_name = mangled_name(self._owner, "species_definitions")
-        self.__species_definitions = getattr(self._owner, attribute_name)
-
         # Set logger.
         self.__logger = logging.getLogger("model.parser.ParserBase")
 
@@ -393,6 +388,6 @@ class ParserBase(ModelShell):
     def species_definitions(self):
         """ Query function for parser's species definitions.
         """
-        # Use deep copy to avoid modification of the model's attribution.
-        return self.__species_definitions
+        # The model returns a deep copy to avoid modification of its attribution.
+        return self._owner.species_definitions
 
-- 
2.43.0


From 5d95de47f1405d3b84c6222a80c89757d3bd59f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 37/57] fix: numerical Jacobian of MDNewton failed for vector
 functions

---
 scaks/solvers/rootfinding_iterators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index d9178e4..f0e7224 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -208,8 +208,9 @@ class MDNewton(RootfindingIterator):
         if 'J' in kwargs:
             self.J = kwargs['J']
         else:
-            def J(*x):
-                return mp.jacobian(f, x)
+            # f takes a vector while mpmath passes its components.
+            def J(x):
+                return mp.jacobian(lambda *xi: f(xi), x)
             self.J = J
         self.norm = mp.norm
         self.verbose = kwargs['verbose']
-- 
2.43.0


From 87ba22a9a940a03e4d51262065aaa5332b5b1e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 38/57] fix: data headers of frequency and TOF analyses are
 written by the master process only

---
 scaks/solvers/kmc_plugins/frequency_analysis.py | 7 ++++---
 scaks/solvers/kmc_plugins/tof_analysis.py       | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/scaks/solvers/kmc_plugins/frequency_analysis.py b/scaks/solvers/kmc_plugins/frequency_analysis.py
index ff5577c..b3f3862 100644
--- a/scaks/solvers/kmc_plugins/frequency_analysis.py
+++ b/scaks/solvers/kmc_plugins/frequency_analysis.py
@@ -63,9 +63,10 @@ class FrequencyAnalysis(KMCAnalysisPlugin):
         # Create statistic data file.
         variables_str = ("times = []\npicked_indices = []\n" +
                          "process_occurencies = []\n")
-        with open(self.__filename, "w") as f:
-            content = file_header + variables_str
-            f.write(content)
+        if mpi.is_master:
+            with open(self.__filename, "w") as f:
+                content = file_header + variables_str
+                f.write(content)
 
     def registerStep(self, step, time, configuration, interactions):
         # Append picked index.
diff --git a/scaks/solvers/kmc_plugins/tof_analysis.py b/scaks/solvers/kmc_plugins/tof_analysis.py
index 5b30c45..e1071f1 100644
--- a/scaks/solvers/kmc_plugins/tof_analysis.py
+++ b/scaks/solvers/kmc_plugins/tof_analysis.py
@@ -81,9 +81,10 @@ class TOFAnalysis(KMCAnalysisPlugin):
         process_mapping = self.__kmc_model.process_mapping
         process_mapping_str = get_list_string("processes", process_mapping, 1)
 
-        with open(self.__filename, "w") as f:
-            content = file_header + variables_str + process_mapping_str
-            f.write(content)
+        if mpi.is_master:
+            with open(self.__filename, "w") as f:
+                content = file_header + variables_str + process_mapping_str
+                f.write(content)
 
     def registerStep(self, step, time, configuration, interactions):
         # Get picked process index.
-- 
2.43.0


From d4100c848ae81088d0167c4690d7d1bc8ab30b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 39/57] fix: log folder exists before any process opens its log

---
 scaks/models/kinetic_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index f3d72b2..b708837 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -193,9 +193,10 @@ class KineticModel(object):
             if 1 == mpi.size:
                 filename = "out.log"
             else:
-                mpi.barrier()
-                if not os.path.exists("./log") and mpi.is_master:
+                if mpi.is_master and not os.path.exists("./log"):
                     os.mkdir("./log")
+                # The folder must be there before any process opens its log.
+                mpi.barrier()
                 filename = "./log/out_{}.log".format(mpi.rank)
 
         # Create handlers.
-- 
2.43.0


From 290dd4029fabd4ec19ab3e8df75350b2cf72a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 40/57] fix: data folder is created once and waited for by all
 processes

---
 scaks/models/micro_kinetic_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index ca851e8..91b392d 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -127,10 +127,10 @@ class MicroKineticModel(KineticModel):
         super(MicroKineticModel, self).__init__(**kwargs)
 
         # Create data directory if need.
-        if mpi.size != 1 and not os.path.exists("./data"):
-            mpi.barrier()
-            if mpi.is_master:
+        if mpi.size != 1:
+            if mpi.is_master and not os.path.exists("./data"):
                 os.mkdir("./data")
+            mpi.barrier()
 
         # Model attributes definitions.
         self.__ss_cvgs = None          # steady-state coverages
-- 
2.43.0


From 2e83595d5a679ba4c00146820c2b2a31404d29a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 41/57] fix: energy profiles of reactions without barrier above
 both ends

---
 scaks/plotters/energy_profile_plotter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scaks/plotters/energy_profile_plotter.py b/scaks/plotters/energy_profile_plotter.py
index 849ba67..c894ae3 100644
--- a/scaks/plotters/energy_profile_plotter.py
+++ b/scaks/plotters/energy_profile_plotter.py
@@ -59,9 +59,13 @@ class EnergyProfilePlotter(PlotterBase):
         for idx, (rxn, Ga, dG) in enumerate(zip(self._owner.rxn_expressions,
                                                 self._owner.relative_energies['Gaf'],
                                                 self._owner.relative_energies['dG'])):
-            energies = [0.0, dG] if abs(Ga) < 1e-5 else [0.0, Ga, dG]
+            # A barrier shows only if it is above both the initial and the final state.
+            energies = [0.0, Ga, dG] if Ga - max(0.0, dG) > 1e-5 else [0.0, dG]
+            # The equation must have as many states as the line.
+            states = RxnEquation(rxn).tolist()
+            equation = rxn if len(states) == len(energies) else None
             canvas = EPCanvas()
-            canvas.add_line(ElementaryLine(energies, rxn_equation=rxn, **kwargs))
+            canvas.add_line(ElementaryLine(energies, rxn_equation=equation, **kwargs))
             canvas.draw()
             image_name = 'energy_profile/{}_{}.png'.format(idx, rxn)
             canvas.figure.savefig(image_name)
-- 
2.43.0


From 5200a63d37d891110d1629a7c821922c6b809467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 42/57] fix: LaTeX output of coverage derivatives failed

---
 scaks/solvers/steady_state_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index fb8e368..dc73ee3 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -599,7 +599,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         # Log it.
         if log_latex:
-            self.log_latex(self.dtheta_dt_latex)
+            self.log_latex(dtheta_dt_latexs)
 
         return dtheta_dt_syms
 
-- 
2.43.0


From 67e08fa4c62739c42f2e2ae192dadac23b48b11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 43/57] fix: continued lattice simulations start at the last
 time, setup file stays readable

---
 scripts/kmc_run/change_start_time.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/kmc_run/change_start_time.py b/scripts/kmc_run/change_start_time.py
index c070a9d..6713370 100644
--- a/scripts/kmc_run/change_start_time.py
+++ b/scripts/kmc_run/change_start_time.py
@@ -13,11 +13,14 @@ with open("pt-100.mkm", "r") as f:
 found = False
 for idx, line in enumerate(content):
     if line.startswith("start_time"):
-        content[idx] = "start_time = {}".format(start_time)
+        content[idx] = "start_time = {!r}\n".format(start_time)
         found = True
 
 if not found:
-    content.append('start_time = 0.0\n')
+    # The last line of the file may have no line break.
+    if content and not content[-1].endswith("\n"):
+        content[-1] += "\n"
+    content.append("start_time = {!r}\n".format(start_time))
 
 with open("pt-100.mkm", "w") as f:
     f.writelines(content)
-- 
2.43.0


From 17b2e088849ae8f29887bda510c0b69d202cf706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 44/57] fix: kMC run script failed to start with Python 3 and
 did not remove old files

---
 scripts/kmc_run/run.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/kmc_run/run.py b/scripts/kmc_run/run.py
index 5e20dcf..6359328 100644
--- a/scripts/kmc_run/run.py
+++ b/scripts/kmc_run/run.py
@@ -2,23 +2,24 @@
 Script to run scaks kMC simulation.
 """
 
-import commands
 import logging
+import sys
 import time
 
+from scaks.compatutil import subprocess
 from scaks.mpicommons import mpi
 from scaks.models.kmc_model import KMCModel
 from scaks.utilities.format_utilities import convert_time
 
 if "__main__" == __name__:
     # Remove old log file.
-    commands.getstatusoutput("rm -rm out.log auto_*")
+    subprocess.getstatusoutput("rm -rf out.log auto_*")
 
     # Set logger.
     logger = logging.getLogger("model.KMCModelRun")
 
     # Get setup file.
-    status, output= commands.getstatusoutput("ls *.mkm | tail -1")
+    status, output= subprocess.getstatusoutput("ls *.mkm | tail -1")
     if status:
         if mpi.is_master:
             logger.error(output)
-- 
2.43.0


From 5395902602feda546dbf56511640c916dfbe2d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 45/57] fix: micro-kinetic run script solved the steady state
 though only ODE integration was asked for

---
 scripts/mkm_run/run.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/mkm_run/run.py b/scripts/mkm_run/run.py
index 8856d2d..9376837 100644
--- a/scripts/mkm_run/run.py
+++ b/scripts/mkm_run/run.py
@@ -52,11 +52,11 @@ if "__main__" == __name__:
         init_guess = trajectory[-1]
 
         # Run.
-        model.run(init_cvgs=init_guess,
-                  solve_ode=OdeOnly,
-                  coarse_guess=False,
-                  XRC=CalcXRC,
-                  product_name=ProductionName)
+        if not OdeOnly:
+            model.run(init_cvgs=init_guess,
+                      coarse_guess=False,
+                      XRC=CalcXRC,
+                      product_name=ProductionName)
     except Exception as e:
         if mpi.is_master:
             msg = "{} exception is catched.".format(type(e).__name__)
-- 
2.43.0


From 76e5b3c1659ddf1b224e844dacedb6a1fb678441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 46/57] fix: job scripts failed with Python 3 and wrote setup
 files that could not be read back

---
 scripts/kmc_run/1d-run/create_jobs.py |  9 +++++----
 scripts/kmc_run/2d-run/create_jobs.py | 11 ++++++-----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/scripts/kmc_run/1d-run/create_jobs.py b/scripts/kmc_run/1d-run/create_jobs.py
index 6994620..a537863 100644
--- a/scripts/kmc_run/1d-run/create_jobs.py
+++ b/scripts/kmc_run/1d-run/create_jobs.py
@@ -2,15 +2,16 @@
 # -*- coding: utf-8 -*-
 
 import os
-import commands
 import shutil
 
 import numpy as np
 
+from scaks.compatutil import subprocess
+
 def dict2setup(d):
     setup = ""
     for key, value in d.items():
-        value = "'{}'".format(value) if type(value) is str else value
+        value = repr(value)
         line = "{} = {}\n".format(key, value)
         setup += line
     return setup
@@ -37,8 +38,8 @@ if "__main__" == __name__:
             shutil.rmtree(dest)
 
         os.mkdir(dest)
-        commands.getstatusoutput("cp -r ./template/* {}".format(dest))
-        locs['species_definitions'][species_name]['pressure'] = p
+        subprocess.getstatusoutput("cp -r ./template/* {}".format(dest))
+        locs['species_definitions'][species_name]['pressure'] = float(p)
 
         # Write new setup file.
         with open("./{}/{}".format(dest, filename), "w") as f:
diff --git a/scripts/kmc_run/2d-run/create_jobs.py b/scripts/kmc_run/2d-run/create_jobs.py
index f227096..a4bf458 100644
--- a/scripts/kmc_run/2d-run/create_jobs.py
+++ b/scripts/kmc_run/2d-run/create_jobs.py
@@ -2,15 +2,16 @@
 # -*- coding: utf-8 -*-
 
 import os
-import commands
 import shutil
 
 import numpy as np
 
+from scaks.compatutil import subprocess
+
 def dict2setup(d):
     setup = ""
     for key, value in d.items():
-        value = "'{}'".format(value) if type(value) is str else value
+        value = repr(value)
         line = "{} = {}\n".format(key, value)
         setup += line
     return setup
@@ -42,9 +43,9 @@ if "__main__" == __name__:
                 shutil.rmtree(job_dir)
 
             os.mkdir(job_dir)
-            commands.getstatusoutput("cp -r ./template/* {}".format(job_dir))
-            locs['species_definitions']['CO_g']['pressure'] = pCO
-            locs['species_definitions']['O2_g']['pressure'] = pO2
+            subprocess.getstatusoutput("cp -r ./template/* {}".format(job_dir))
+            locs['species_definitions']['CO_g']['pressure'] = float(pCO)
+            locs['species_definitions']['O2_g']['pressure'] = float(pO2)
 
             # Write new setup file.
             with open("./{}/{}".format(job_dir, filename), "w") as f:
-- 
2.43.0


From 048709df22bbe71eff23f8d54246ea62db81533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 47/57] fix: scripts that collect job results failed with
 Python 3

---
 scripts/kmc_plot/batch_plot/extract_tofs.py  | 1 -
 scripts/kmc_plot/map_plot/extract_CO_cvgs.py | 2 +-
 scripts/kmc_plot/map_plot/extract_O_cvgs.py  | 2 +-
 scripts/kmc_plot/map_plot/extract_tofs.py    | 4 +---
 4 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/scripts/kmc_plot/batch_plot/extract_tofs.py b/scripts/kmc_plot/batch_plot/extract_tofs.py
index dbceac6..fba599d 100644
--- a/scripts/kmc_plot/batch_plot/extract_tofs.py
+++ b/scripts/kmc_plot/batch_plot/extract_tofs.py
@@ -1,7 +1,6 @@
 #!/usr/bin/env python
 # -*- coding: utf-8 -*-
 
-import commands
 import os
 
 import numpy as np
diff --git a/scripts/kmc_plot/map_plot/extract_CO_cvgs.py b/scripts/kmc_plot/map_plot/extract_CO_cvgs.py
index d314aa5..15dc612 100644
--- a/scripts/kmc_plot/map_plot/extract_CO_cvgs.py
+++ b/scripts/kmc_plot/map_plot/extract_CO_cvgs.py
@@ -23,7 +23,7 @@ for pO2_dir in pO2_dirs:
         # Read tofs.
         filename = "{}/{}/auto_coverages.py".format(pO2_dir, pCO_dir)
         globs, locs = {}, {}
-        execfile(filename, globs, locs)
+        exec(open(filename, "rb").read(), globs, locs)
         cvg = locs["coverages"][-1][-1]
         cvgs_1d.append(cvg)
     cvgs.append(cvgs_1d)
diff --git a/scripts/kmc_plot/map_plot/extract_O_cvgs.py b/scripts/kmc_plot/map_plot/extract_O_cvgs.py
index 34deb4e..cceee71 100644
--- a/scripts/kmc_plot/map_plot/extract_O_cvgs.py
+++ b/scripts/kmc_plot/map_plot/extract_O_cvgs.py
@@ -22,7 +22,7 @@ for pO2_dir in pO2_dirs:
         # Read coverages.
         filename = "{}/{}/auto_coverages.py".format(pO2_dir, pCO_dir)
         globs, locs = {}, {}
-        execfile(filename, globs, locs)
+        exec(open(filename, "rb").read(), globs, locs)
         cvg = locs["coverages"][-2][-1]
         cvgs_1d.append(cvg)
     cvgs.append(cvgs_1d)
diff --git a/scripts/kmc_plot/map_plot/extract_tofs.py b/scripts/kmc_plot/map_plot/extract_tofs.py
index a84f57b..02f7beb 100644
--- a/scripts/kmc_plot/map_plot/extract_tofs.py
+++ b/scripts/kmc_plot/map_plot/extract_tofs.py
@@ -2,8 +2,6 @@
 # -*- coding: utf-8 -*-
 
 import numpy as np
-from scipy.interpolate import interp2d
-import matplotlib.pyplot as plt
 
 from scaks.compatutil import subprocess
 
@@ -24,7 +22,7 @@ for pO2_dir in pO2_dirs:
         # Read tofs.
         filename = "{}/{}/auto_frequency.py".format(pO2_dir, pCO_dir)
         globs, locs = {}, {}
-        execfile(filename, globs, locs)
+        exec(open(filename, "rb").read(), globs, locs)
         reaction_rates = locs["reaction_rates"]
         TON = 0.0
         reactions = sorted(reaction_rates.keys())
-- 
2.43.0


From 0e51b8a7e8be71cbe5db49a305f6868b0f2619cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 48/57] fix: plot scripts for frequencies and coverages failed
 with Python 3

---
 scripts/kmc_plot/plot_frequencies.py | 4 ++--
 scripts/mkm_plot/plot_cvgs.py        | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/scripts/kmc_plot/plot_frequencies.py b/scripts/kmc_plot/plot_frequencies.py
index cf9e4c4..d8d5688 100644
--- a/scripts/kmc_plot/plot_frequencies.py
+++ b/scripts/kmc_plot/plot_frequencies.py
@@ -13,7 +13,7 @@ reaction_occurencies = locs['reaction_occurencies']
 reactions = sorted(reaction_occurencies)
 
 # Get data.
-N = len(reaction_occurencies)/2
+N = len(reaction_occurencies)//2
 forward_rxns = reactions[::2]
 reverse_rxns = reactions[1::2]
 f_occurencies = [reaction_occurencies[rxn] for rxn in forward_rxns]
@@ -33,7 +33,7 @@ plt.xlabel(r'$\bf{Frequency}$', fontsize=16)
 ax.set_yticks(ind + width)
 
 # Get yticklabels.
-ylabels = [r"$\bf{reaction(%d)}$" % i for i in xrange(N)]
+ylabels = [r"$\bf{reaction(%d)}$" % i for i in range(N)]
 ax.set_yticklabels(ylabels, rotation=-10, fontsize=13)
 
 plt.legend((rects1[0], rects2[0]), (r'$\bf{forward}$', r'$\bf{reverse}$'))
diff --git a/scripts/mkm_plot/plot_cvgs.py b/scripts/mkm_plot/plot_cvgs.py
index eb5761e..5c688d0 100644
--- a/scripts/mkm_plot/plot_cvgs.py
+++ b/scripts/mkm_plot/plot_cvgs.py
@@ -1,7 +1,6 @@
 #!/usr/bin/env python
 # -*- coding: utf-8 -*-
 
-import commands
 import os
 
 import numpy as np
@@ -27,7 +26,7 @@ if "__main__" == __name__:
     ax.set_ylabel(r"$\bf{Coverages}$")
 
 
-    coverages = zip(*coverages)
+    coverages = list(zip(*coverages))
     CO_cvgs = np.array(coverages[0]) + np.array(coverages[1])
     O_cvgs = np.array(coverages[2])
     cvgs_dict = {"CO": CO_cvgs, "O": O_cvgs}
-- 
2.43.0


From 50b292c209dee8b029fdcdd09143e5df7cf7fdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 49/57] fix: names of lattice processes accumulated when the
 processes were created again

---
 scaks/solvers/kmc_solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaks/solvers/kmc_solver.py b/scaks/solvers/kmc_solver.py
index 0f2af98..3002247 100644
--- a/scaks/solvers/kmc_solver.py
+++ b/scaks/solvers/kmc_solver.py
@@ -109,6 +109,7 @@ class KMCSolver(SolverBase):
 
     def get_processes(self):
         all_processes = []
+        self.__process_mapping = []
         process_dicts = self._owner.process_dicts
         for process_dict in process_dicts:
             processes = self.__get_single_process(process_dict)
-- 
2.43.0


From bb0c4a498734a080c9cd46eb20254f258c4bd696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 50/57] fix: accept the documented random generator RANLUX48

The allowed values named it RANLUNX48, so the value in the documentation of
the setup files was refused.
---
 scaks/models/kmc_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/models/kmc_model.py b/scaks/models/kmc_model.py
index 5896085..19d7e66 100644
--- a/scaks/models/kmc_model.py
+++ b/scaks/models/kmc_model.py
@@ -45,7 +45,7 @@ class KMCModel(KineticModel):
     # Random generator type.
     random_generator = String("random_generator",
                                  default="MT",
-                                 candidates=["MT", "MINSTD", "RANLUX24", "RANLUNX48"])
+                                 candidates=["MT", "MINSTD", "RANLUX24", "RANLUX48"])
 
     # kMC On-the-fly analysis type.
     analysis = Sequence("analysis",
-- 
2.43.0


From 17bb83578cc7b021d3b828f89f0981c7c179df2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 51/57] fix: bound the damping of the Newton step

With a coverage of exactly zero the damped step never vanishes for high
precision numbers, so a stationary point made the root finding loop for ever.
---
 scaks/solvers/rootfinding_iterators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index f0e7224..f395f40 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -248,7 +248,9 @@ class MDNewton(RootfindingIterator):
             l = mp.mpf('1.0')
             x1 = x0 + s
             while True:
-                if x1 == x0:
+                # NOTE: the step never gets lost in a component that is zero,
+                #       where the damping has to be bounded.
+                if x1 == x0 or l < mp.eps:
                     self.logger.info("Found stationary point.")
                     cancel = True
                     break
-- 
2.43.0


From c6d857946511f7fc421d468ec8fa626c4ac866df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 52/57] fix: map plots use an interpolation that was removed
 from scipy

---
 scripts/kmc_plot/map_plot/plot_CO_cvgs_contour.py |  8 ++++----
 scripts/kmc_plot/map_plot/plot_O_cvgs_contour.py  |  8 ++++----
 scripts/kmc_plot/map_plot/plot_phase_diagram.py   | 12 ++++++------
 scripts/kmc_plot/map_plot/plot_tofs_contour.py    |  8 ++++----
 scripts/mkm_plot/map_plot/plot_CO_cvgs_contour.py |  8 ++++----
 scripts/mkm_plot/map_plot/plot_O_cvgs_contour.py  |  8 ++++----
 scripts/mkm_plot/map_plot/plot_phase_diagram.py   | 12 ++++++------
 scripts/mkm_plot/map_plot/plot_tof_contour.py     |  8 ++++----
 8 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/scripts/kmc_plot/map_plot/plot_CO_cvgs_contour.py b/scripts/kmc_plot/map_plot/plot_CO_cvgs_contour.py
index 9a6647e..23936b4 100644
--- a/scripts/kmc_plot/map_plot/plot_CO_cvgs_contour.py
+++ b/scripts/kmc_plot/map_plot/plot_CO_cvgs_contour.py
@@ -2,7 +2,7 @@
 # -*- coding: utf-8 -*-
 
 import numpy as np
-from scipy.interpolate import interp2d
+from scipy.interpolate import RectBivariateSpline
 import matplotlib.pyplot as plt
 
 with np.load("CO-cvgs-data.npz") as data:
@@ -11,14 +11,14 @@ with np.load("CO-cvgs-data.npz") as data:
     cvgs = data['cvgs']
 
 # 2D interpolate.
-pO2s.shape = (-1, 1)
-interp_func = interp2d(pCOs, pO2s, cvgs, kind="linear")
+ix, iy = np.argsort(pCOs), np.argsort(pO2s)
+interp_func = RectBivariateSpline(pO2s[iy], pCOs[ix], cvgs[iy][:, ix], kx=1, ky=1)
 
 # Plot 3D contour.
 #y, x = np.mgrid[0:1:100j, 0:1:100j]
 ynew = np.linspace(1e-5, 5, 100)
 xnew = np.linspace(1e-5, 1e-4, 100)
-z = interp_func(xnew, ynew)
+z = interp_func(ynew, xnew)
 
 extent = [np.min(xnew), np.max(xnew), np.min(ynew), np.max(ynew)]
 
diff --git a/scripts/kmc_plot/map_plot/plot_O_cvgs_contour.py b/scripts/kmc_plot/map_plot/plot_O_cvgs_contour.py
index 76a9ba6..6f1e178 100644
--- a/scripts/kmc_plot/map_plot/plot_O_cvgs_contour.py
+++ b/scripts/kmc_plot/map_plot/plot_O_cvgs_contour.py
@@ -2,7 +2,7 @@
 # -*- coding: utf-8 -*-
 
 import numpy as np
-from scipy.interpolate import interp2d
+from scipy.interpolate import RectBivariateSpline
 import matplotlib.pyplot as plt
 
 with np.load("O-cvgs-data.npz") as data:
@@ -11,14 +11,14 @@ with np.load("O-cvgs-data.npz") as data:
     cvgs = data['cvgs']
 
 # 2D interpolate.
-pO2s.shape = (-1, 1)
-interp_func = interp2d(pCOs, pO2s, cvgs, kind="linear")
+ix, iy = np.argsort(pCOs), np.argsort(pO2s)
+interp_func = RectBivariateSpline(pO2s[iy], pCOs[ix], cvgs[iy][:, ix], kx=1, ky=1)
 
 # Plot 3D contour.
 #y, x = np.mgrid[0:1:100j, 0:1:100j]
 ynew = np.linspace(1e-5, 5, 100)
 xnew = np.linspace(1e-5, 1e-4, 100)
-z = interp_func(xnew, ynew)
+z = interp_func(ynew, xnew)
 
 extent = [np.min(xnew), np.max(xnew), np.min(ynew), np.max(ynew)]
 
diff --git a/scripts/kmc_plot/map_plot/plot_phase_diagram.py b/scripts/kmc_plot/map_plot/plot_phase_diagram.py
index cb341c3..f67b6a8 100644
--- a/scripts/kmc_plot/map_plot/plot_phase_diagram.py
+++ b/scripts/kmc_plot/map_plot/plot_phase_diagram.py
@@ -2,7 +2,7 @@
 # -*- coding: utf-8 -*-
 
 import numpy as np
-from scipy.interpolate import interp2d
+from scipy.interpolate import RectBivariateSpline
 import matplotlib.pyplot as plt
 
 with np.load("tofs-data.npz") as data:
@@ -19,17 +19,17 @@ with np.load("O-cvgs-data.npz") as data:
 cvgs = cvgs_O - cvgs_CO
 
 # 2D interpolate.
-pO2s.shape = (-1, 1)
-interp_func_cvgs = interp2d(pCOs, pO2s, cvgs, kind="linear")
-interp_func_tofs = interp2d(pCOs, pO2s, tofs, kind="linear")
+ix, iy = np.argsort(pCOs), np.argsort(pO2s)
+interp_func_cvgs = RectBivariateSpline(pO2s[iy], pCOs[ix], cvgs[iy][:, ix], kx=1, ky=1)
+interp_func_tofs = RectBivariateSpline(pO2s[iy], pCOs[ix], tofs[iy][:, ix], kx=1, ky=1)
 
 # Plot 3D contour.
 #y, x = np.mgrid[0:1:100j, 0:1:100j]
 ynew = np.linspace(1e-5, 0.5, 100)
 xnew = np.linspace(1e-5, 0.5, 200)
 extent = [np.min(xnew), np.max(xnew), np.min(ynew), np.max(ynew)]
-z_cvgs = interp_func_cvgs(xnew, ynew)
-z_tofs = interp_func_tofs(xnew, ynew)
+z_cvgs = interp_func_cvgs(ynew, xnew)
+z_tofs = interp_func_tofs(ynew, xnew)
 
 CS_cvgs = plt.contourf(xnew.reshape(-1), ynew.reshape(-1),
                        z_cvgs, 10, cmap=plt.cm.coolwarm)
diff --git a/scripts/kmc_plot/map_plot/plot_tofs_contour.py b/scripts/kmc_plot/map_plot/plot_tofs_contour.py
index 6f4a1fc..3dc935f 100644
--- a/scripts/kmc_plot/map_plot/plot_tofs_contour.py
+++ b/scripts/kmc_plot/map_plot/plot_tofs_contour.py
@@ -2,7 +2,7 @@
 # -*- coding: utf-8 -*-
 
 import numpy as np
-from scipy.interpolate import interp2d
+from scipy.interpolate import RectBivariateSpline
 import matplotlib.pyplot as plt
 
 with np.load("tofs-data.npz") as data:
@@ -11,14 +11,14 @@ with np.load("tofs-data.npz") as data:
     tofs = data['tofs']
 
 # 2D interpolate.
-pO2s.shape = (-1, 1)
-interp_func = interp2d(pCOs, pO2s, tofs, kind="linear")
+ix, iy = np.argsort(pCOs), np.argsort(pO2s)
+interp_func = RectBivariateSpline(pO2s[iy], pCOs[ix], tofs[iy][:, ix], kx=1, ky=1)
 
 # Plot 3D contour.
 #y, x = np.mgrid[0:1:100j, 0:1:100j]
 ynew = np.linspace(1e-5, 5, 100)
 xnew = np.linspace(1e-5, 1e-4, 100)
-z = interp_func(xnew, ynew)
+z = interp_func(ynew, xnew)
 
 extent = [np.min(xnew), np.max(xnew), np.min(ynew), np.max(ynew)]
 
diff --git a/scripts/mkm_plot/map_plot/plot_CO_cvgs_contour.py b/scripts/mkm_plot/map_plot/plot_CO_cvgs_contour.py
index 68d85ed..2b877f8 100644
--- a/scripts/mkm_plot/map_plot/plot_CO_cvgs_contour.py
+++ b/scripts/mkm_plot/map_plot/plot_CO_cvgs_contour.py
@@ -2,7 +2,7 @@
 # -*- coding: utf-8 -*-
 
 import numpy as np
-from scipy.interpolate import interp2d
+from scipy.interpolate import RectBivariateSpline
 import matplotlib.pyplot as plt
 
 from auto_cvgs import cvgs_O, cvgs_CO, pCO, pO2
@@ -13,14 +13,14 @@ cvgs_O = np.array(cvgs_O)
 cvgs_CO = np.array(cvgs_CO)
 
 # 2D interpolate.
-pO2.shape = (-1, 1)
-interp_func = interp2d(pCO, pO2, cvgs_CO, kind="linear")
+ix, iy = np.argsort(pCO), np.argsort(pO2)
+interp_func = RectBivariateSpline(pO2[iy], pCO[ix], cvgs_CO[iy][:, ix], kx=1, ky=1)
 
 # Plot 3D contour.
 #y, x = np.mgrid[0:1:100j, 0:1:100j]
 ynew = np.linspace(1e-5, 0.5, 100)
 xnew = np.linspace(1e-5, 0.5, 100)
-z = interp_func(xnew, ynew)
+z = interp_func(ynew, xnew)
 
 extent = [np.min(xnew), np.max(xnew), np.min(ynew), np.max(ynew)]
 
diff --git a/scripts/mkm_plot/map_plot/plot_O_cvgs_contour.py b/scripts/mkm_plot/map_plot/plot_O_cvgs_contour.py
index 924bdc0..a4260d5 100644
--- a/scripts/mkm_plot/map_plot/plot_O_cvgs_contour.py
+++ b/scripts/mkm_plot/map_plot/plot_O_cvgs_contour.py
@@ -2,7 +2,7 @@
 # -*- coding: utf-8 -*-
 
 import numpy as np
-from scipy.interpolate import interp2d
+from scipy.interpolate import RectBivariateSpline
 import matplotlib.pyplot as plt
 
 from auto_cvgs import cvgs_O, cvgs_CO, pCO, pO2
@@ -13,14 +13,14 @@ cvgs_O = np.array(cvgs_O)
 cvgs_CO = np.array(cvgs_CO)
 
 # 2D interpolate.
-pO2.shape = (-1, 1)
-interp_func = interp2d(pCO, pO2, cvgs_O, kind="linear")
+ix, iy = np.argsort(pCO), np.argsort(pO2)
+interp_func = RectBivariateSpline(pO2[iy], pCO[ix], cvgs_O[iy][:, ix], kx=1, ky=1)
 
 # Plot 3D contour.
 #y, x = np.mgrid[0:1:100j, 0:1:100j]
 ynew = np.linspace(1e-5, 0.5, 100)
 xnew = np.linspace(1e-5, 0.5, 100)
-z = interp_func(xnew, ynew)
+z = interp_func(ynew, xnew)
 
 extent = [np.min(xnew), np.max(xnew), np.min(ynew), np.max(ynew)]
 
diff --git a/scripts/mkm_plot/map_plot/plot_phase_diagram.py b/scripts/mkm_plot/map_plot/plot_phase_diagram.py
index bff5ff5..b20ac0e 100644
--- a/scripts/mkm_plot/map_plot/plot_phase_diagram.py
+++ b/scripts/mkm_plot/map_plot/plot_phase_diagram.py
@@ -2,7 +2,7 @@
 # -*- coding: utf-8 -*-
 
 import numpy as np
-from scipy.interpolate import interp2d
+from scipy.interpolate import RectBivariateSpline
 import matplotlib.pyplot as plt
 
 from auto_cvgs import cvgs_O, cvgs_CO, pCO, pO2
@@ -16,17 +16,17 @@ cvgs = cvgs_O - cvgs_CO
 tofs = np.array(tofs)
 
 # 2D interpolate.
-pO2.shape = (-1, 1)
-interp_func_cvgs = interp2d(pCO, pO2, cvgs, kind="linear")
-interp_func_tofs = interp2d(pCO, pO2, tofs, kind="linear")
+ix, iy = np.argsort(pCO), np.argsort(pO2)
+interp_func_cvgs = RectBivariateSpline(pO2[iy], pCO[ix], cvgs[iy][:, ix], kx=1, ky=1)
+interp_func_tofs = RectBivariateSpline(pO2[iy], pCO[ix], tofs[iy][:, ix], kx=1, ky=1)
 
 # Plot 3D contour.
 #y, x = np.mgrid[0:1:100j, 0:1:100j]
 ynew = np.linspace(1e-5, 0.5, 100)
 xnew = np.linspace(1e-5, 0.5, 100)
 extent = [np.min(xnew), np.max(xnew), np.min(ynew), np.max(ynew)]
-z_cvgs = interp_func_cvgs(xnew, ynew)
-z_tofs = interp_func_tofs(xnew, ynew)
+z_cvgs = interp_func_cvgs(ynew, xnew)
+z_tofs = interp_func_tofs(ynew, xnew)
 
 CS_cvgs = plt.contourf(xnew.reshape(-1), ynew.reshape(-1),
                       z_cvgs, 5, cmap=plt.cm.coolwarm)
diff --git a/scripts/mkm_plot/map_plot/plot_tof_contour.py b/scripts/mkm_plot/map_plot/plot_tof_contour.py
index 00237e5..68a2a9f 100644
--- a/scripts/mkm_plot/map_plot/plot_tof_contour.py
+++ b/scripts/mkm_plot/map_plot/plot_tof_contour.py
@@ -2,7 +2,7 @@
 # -*- coding: utf-8 -*-
 
 import numpy as np
-from scipy.interpolate import interp2d
+from scipy.interpolate import RectBivariateSpline
 import matplotlib.pyplot as plt
 
 from auto_tofs import pCO, pO2, tofs
@@ -12,14 +12,14 @@ pO2 = np.array(pO2)
 tofs = np.array(tofs)
 
 # 2D interpolate.
-pO2.shape = (-1, 1)
-interp_func = interp2d(pCO, pO2, tofs, kind="linear")
+ix, iy = np.argsort(pCO), np.argsort(pO2)
+interp_func = RectBivariateSpline(pO2[iy], pCO[ix], tofs[iy][:, ix], kx=1, ky=1)
 
 # Plot 3D contour.
 #y, x = np.mgrid[0:1:100j, 0:1:100j]
 ynew = np.linspace(1e-5, 0.5, 100)
 xnew = np.linspace(1e-5, 0.5, 100)
-z = interp_func(xnew, ynew)
+z = interp_func(ynew, xnew)
 
 extent = [np.min(xnew), np.max(xnew), np.min(ynew), np.max(ynew)]
 
-- 
2.43.0


From 4634c5a6468be3a09af271def8c7be82da9c2cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:28 +0000
Subject: [PATCH 53/57] fix: return the initial coverages that converged

---
 scaks/solvers/steady_state_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index dc73ee3..bc93beb 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -1410,4 +1410,4 @@ class SteadyStateSolver(MeanFieldSolver):
     def good_guess(self):
         """ Query function for good initial coverages.
         """
-        self._good_guess
+        return self._good_guess
-- 
2.43.0


From 2b8854609e0f04540a6915c3762e5a1a187d35ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:28 +0000
Subject: [PATCH 54/57] fix: query functions of the solver read attributes that
 are never set

---
 scaks/solvers/mean_field_solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index 6f7f98e..7bde243 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -1083,7 +1083,7 @@ class MeanFieldSolver(SolverBase):
     def has_absolute_energy(self):
         """ Query function for has_absolute_energy flag.
         """
-        return self._has_absolute_energy
+        return self._owner.has_absolute_energy
 
     @Property
     def absolute_corrected(self):
@@ -1119,11 +1119,11 @@ class MeanFieldSolver(SolverBase):
     def absolute_energies(self):
         """ Query function for formation energies.
         """
-        return self._G
+        return self._owner.absolute_energies
 
     @Property
     def rate_expressions(self):
         """ Query functions for rate expressions for all elementary reactions.
         """
-        return self._rate_expressions
+        return self.get_rate_expressions()
 
-- 
2.43.0


From e627fba8945518ce95bdcb9f37eac6ec06c4fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:19 +0000
Subject: [PATCH 55/57] fix: the rate constants of a repeated calculation are
 missing in the log

The table is only written when the rate constants are calculated, a
second run with the same energies takes them from the cache of Memoized
and writes none.
---
 scaks/descriptors/descriptors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index ceaa536..019c797 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -402,9 +402,9 @@ class Memoized(object):
             energies = copy.deepcopy(instance._owner.relative_energies)
             key["relative_energies"] = make_hashable(energies)
 
-        try:
-            return results[key]
-        except KeyError:
+        # NOTE: a call which is asked to write its result to the log always
+        #       has to do so.
+        if key not in results or kwargs.get("log"):
             results[key] = self.func(instance, **kwargs)
-            return results[key]
+        return results[key]
 
-- 
2.43.0


From ea3ed7d627bf306007abe67538989f7082073b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:47 +0000
Subject: [PATCH 56/57] fix: changing returned rate constants in place changes
 later results

The cache of Memoized hands out its own lists.
---
 scaks/descriptors/descriptors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index 019c797..7199627 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -406,5 +406,7 @@ class Memoized(object):
         #       has to do so.
         if key not in results or kwargs.get("log"):
             results[key] = self.func(instance, **kwargs)
-        return results[key]
+
+        # A copy is returned, the caller may change it in place.
+        return copy.deepcopy(results[key])
 
-- 
2.43.0


From 7de72c4e4ea0533ebd2d5f48063b2f0aac2f90d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:31 +0000
Subject: [PATCH 57/57] fix: ODE integration never ends when the integrator
 keeps failing

---
 scaks/solvers/steady_state_solver.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index bc93beb..8cf1518 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -1314,6 +1314,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     f.write(file_header + time_str + coverages_str)
 
             nstep = 0
+            nfailed = 0
 
             while r.t < t_end:
                 nstep += 1
@@ -1321,6 +1322,14 @@ class SteadyStateSolver(MeanFieldSolver):
 
                 # Integrate.
                 r.integrate(r.t + t_step)
+
+                # NOTE: an integrator that fails again and again never reaches the end.
+                nfailed = 0 if r.successful() else nfailed + 1
+                if nfailed >= 20:
+                    if self._owner.log_allowed:
+                        self.__logger.warning('ODE integration failed at %s s.', r.t)
+                    break
+
                 if traj_output and output_allowed:
                     ts.append(r.t)
                     ys.append(r.y.tolist())
-- 
2.43.0

