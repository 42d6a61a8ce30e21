From 826490f6061682e56301533d326c4307b5d1edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:27 +0000
Subject: [PATCH 01/83] fix: reject expressions with operands that are not
 joined by an operator

'1 2' and 'A (B)' silently evaluated to the last operand, and an empty expression raised IndexError.
---
 src/libecalc/expression/expression_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libecalc/expression/expression_tree.py b/src/libecalc/expression/expression_tree.py
index 5c0f03a..b8624fc 100644
--- a/src/libecalc/expression/expression_tree.py
+++ b/src/libecalc/expression/expression_tree.py
@@ -136,6 +136,9 @@ def get_tree(postfix_tokens: list[Token]) -> Node:
         else:
             stack.append(Node(token=token))
 
+    if len(stack) != 1:
+        raise ValueError("Expected a single value, operator(s) or operand(s) are missing")
+
     return stack.pop()
 
 
-- 
2.43.0


From b6fcd3bf0a960d59526a517215064fe75d023e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:27 +0000
Subject: [PATCH 02/83] fix: evaluate comparison operators left to right, as
 documented

The documentation gives all comparison operators the same precedence, but each had its own: '1 < 2 == 1' was
evaluated as '1 < (2 == 1)'.
---
 src/libecalc/expression/expression_tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libecalc/expression/expression_tree.py b/src/libecalc/expression/expression_tree.py
index b8624fc..2682db5 100644
--- a/src/libecalc/expression/expression_tree.py
+++ b/src/libecalc/expression/expression_tree.py
@@ -156,9 +156,9 @@ OPERATORS = {
     "{+}": Operator(value="{+}", function=op.add, precedence=22, associativity="LEFT"),
     "{-}": Operator(value="{-}", function=op.sub, precedence=22, associativity="LEFT"),
     "==": Operator(value="==", function=op.eq, precedence=16, associativity="LEFT"),
-    "!=": Operator(value="ne", function=op.ne, precedence=15, associativity="LEFT"),
-    "<": Operator(value="ne", function=op.lt, precedence=14, associativity="LEFT"),
-    ">": Operator(value="{>}", function=op.gt, precedence=13, associativity="LEFT"),
-    "<=": Operator(value="{<=}", function=op.le, precedence=12, associativity="LEFT"),
-    ">=": Operator(value="{>=}", function=op.ge, precedence=11, associativity="LEFT"),
+    "!=": Operator(value="ne", function=op.ne, precedence=16, associativity="LEFT"),
+    "<": Operator(value="ne", function=op.lt, precedence=16, associativity="LEFT"),
+    ">": Operator(value="{>}", function=op.gt, precedence=16, associativity="LEFT"),
+    "<=": Operator(value="{<=}", function=op.le, precedence=16, associativity="LEFT"),
+    ">=": Operator(value="{>=}", function=op.ge, precedence=16, associativity="LEFT"),
 }
-- 
2.43.0


From 50d36683128b461c933a0a76e25a2adfa2305de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:27 +0000
Subject: [PATCH 03/83] fix: accept scientific notation with more than one
 digit before the decimal point

'12.5e3 {+} 1' was read as the number 12.5 followed by a reference 'e3'.
---
 src/libecalc/expression/expression_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/expression/expression_evaluator.py b/src/libecalc/expression/expression_evaluator.py
index f433fe4..942b970 100644
--- a/src/libecalc/expression/expression_evaluator.py
+++ b/src/libecalc/expression/expression_evaluator.py
@@ -91,7 +91,7 @@ def lexer(expression: str | int | float) -> list[Token]:
         (r">", TokenTag.operator),
         (r"==", TokenTag.operator),
         (r"!=", TokenTag.operator),
-        (r"[0-9](\.[0-9]+)?e[-+]?[0-9]+", TokenTag.numeric),  # Scientific notation, e.g. 1.23e-05, 3.4e7, 1e+1
+        (r"[0-9]+(\.[0-9]+)?e[-+]?[0-9]+", TokenTag.numeric),  # Scientific notation, e.g. 1.23e-05, 3.4e7, 1e+1
         (r"[0-9.]+", TokenTag.numeric),
         (r"[A-Za-z][A-Za-z0-9._;:+*/-]*", TokenTag.reference),
         (r"\$var\.[A-Za-z][A-Za-z0-9_]*", TokenTag.reference),
-- 
2.43.0


From bd086fb9f868efd65efd1015b796d3325922cd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:27 +0000
Subject: [PATCH 04/83] fix: division by zero in an expression gives 0, as
 documented

'x {/} 0' gave the largest representable number (1.8e308) for any non-zero x.
---
 src/libecalc/expression/expression_tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/expression/expression_tree.py b/src/libecalc/expression/expression_tree.py
index 2682db5..e3386d6 100644
--- a/src/libecalc/expression/expression_tree.py
+++ b/src/libecalc/expression/expression_tree.py
@@ -142,6 +142,11 @@ def get_tree(postfix_tokens: list[Token]) -> Node:
     return stack.pop()
 
 
+def divide(left: NDArray[np.float64], right: NDArray[np.float64]) -> NDArray[np.float64]:
+    """Division where dividing by zero gives zero"""
+    return np.divide(left, right, out=np.zeros_like(left), where=right != 0)
+
+
 class Operator(NamedTuple):
     value: str
     function: Callable
@@ -152,7 +157,7 @@ class Operator(NamedTuple):
 OPERATORS = {
     "{^}": Operator(value="{^}", function=op.pow, precedence=24, associativity="RIGHT"),
     "{*}": Operator(value="{*}", function=op.mul, precedence=23, associativity="LEFT"),
-    "{/}": Operator(value="{/}", function=op.truediv, precedence=23, associativity="LEFT"),
+    "{/}": Operator(value="{/}", function=divide, precedence=23, associativity="LEFT"),
     "{+}": Operator(value="{+}", function=op.add, precedence=22, associativity="LEFT"),
     "{-}": Operator(value="{-}", function=op.sub, precedence=22, associativity="LEFT"),
     "==": Operator(value="==", function=op.eq, precedence=16, associativity="LEFT"),
-- 
2.43.0


From f6395fff1d37e4529cff3f80e8ae3ee2b68d783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:23 +0000
Subject: [PATCH 05/83] fix: resampled time series carry the value in effect at
 the start of each new period

A value that started between two dates of the new time vector was lost, and a stale value was reported until the
next value that happened to start on the new time vector.
---
 src/libecalc/common/utils/rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index 3dd2b56..89fb4c7 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -199,7 +199,7 @@ class TimeSeries[TimeSeriesValue](BaseModel, ABC):
             self.periods, frequency=freq, include_start_date=include_start_date, include_end_date=include_end_date
         )
         new_time_steps = new_periods.start_dates
-        ds_resampled = ds.reindex(new_time_steps).ffill()
+        ds_resampled = ds.reindex(new_time_steps, method="ffill")
 
         return self.__class__(
             periods=new_periods,
-- 
2.43.0


From 7eb485617dbcc484f396f50e6452dada372aea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:23 +0000
Subject: [PATCH 06/83] fix: adding rates with different regularity gives NaN
 regularity (and volume) where the rates are zero

---
 src/libecalc/common/utils/rates.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index 89fb4c7..24c903d 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -775,7 +775,12 @@ class TimeSeriesRate(TimeSeries[float]):
                     periods=self.periods,
                     values=elementwise_sum(self.values, other.values).tolist(),
                     unit=self.unit,
-                    regularity=(sum_calendar_day / sum_stream_day).tolist(),
+                    regularity=np.divide(
+                        sum_calendar_day,
+                        sum_stream_day,
+                        out=np.zeros_like(sum_calendar_day),
+                        where=sum_stream_day != 0.0,
+                    ).tolist(),
                     rate_type=self.rate_type,
                 )
         else:
-- 
2.43.0


From adfa68631f4f69e832cd1ac845898f4d3a1a3659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:23 +0000
Subject: [PATCH 07/83] fix: indexing a rate time series with an integer or a
 list of integers raised KeyError

---
 src/libecalc/common/utils/rates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index 24c903d..3dc88fa 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -1000,7 +1000,7 @@ class TimeSeriesRate(TimeSeries[float]):
             )
         elif isinstance(indices, int):
             return self.__class__(
-                periods=[self.periods[indices]],
+                periods=self.periods[indices],
                 values=[self.values[indices]],
                 regularity=[self.regularity[indices]],
                 unit=self.unit,
@@ -1009,7 +1009,7 @@ class TimeSeriesRate(TimeSeries[float]):
         elif isinstance(indices, list | np.ndarray):
             indices = list(indices)
             return self.__class__(
-                periods=[self.periods[i] for i in indices],
+                periods=self.periods[indices],
                 values=[self.values[i] for i in indices],
                 regularity=[self.regularity[i] for i in indices],
                 unit=self.unit,
-- 
2.43.0


From 4f0ea623a18989311cc34e5ed9e82348228ca307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:47 +0000
Subject: [PATCH 08/83] fix: time series files with year-only dates and decimal
 values were refused

The columns were read through a transposed frame, which turned integer years into floats
as soon as another column contained decimals.
---
 src/libecalc/presentation/yaml/yaml_entities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/yaml_entities.py b/src/libecalc/presentation/yaml/yaml_entities.py
index 89f64bf..5cb1658 100644
--- a/src/libecalc/presentation/yaml/yaml_entities.py
+++ b/src/libecalc/presentation/yaml/yaml_entities.py
@@ -97,7 +97,8 @@ class MemoryResource(Resource):
             # Empty column data is fine, but it must retain the shape of the headers.
             data = [[] * len(headers)]
         else:
-            data = df_resource.T.values.tolist()
+            # Column by column, to keep the type of each column (e.g. years as int next to columns with floats).
+            data = [df_resource.iloc[:, index].tolist() for index in range(len(headers))]
 
         return MemoryResource(headers=headers, data=data)
 
-- 
2.43.0


From 2bfa34dbdae92e1d923590fda2f3ea67d04674cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:34 +0000
Subject: [PATCH 09/83] fix: a reference to a column whose header differs from
 another only in case read the wrong column

---
 src/libecalc/presentation/yaml/yaml_entities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_entities.py b/src/libecalc/presentation/yaml/yaml_entities.py
index 5cb1658..fed7b29 100644
--- a/src/libecalc/presentation/yaml/yaml_entities.py
+++ b/src/libecalc/presentation/yaml/yaml_entities.py
@@ -44,9 +44,10 @@ class MemoryResource(Resource):
             ColumnNotFoundException: If the header is found but there is no column data for it.
         """
         try:
+            # An exact match takes precedence, headers may differ in case only
             header_index = next(
-                (i for i, h in enumerate(self.headers) if h.lower() == header.lower()),
-                None,
+                (i for i, h in enumerate(self.headers) if h == header),
+                next((i for i, h in enumerate(self.headers) if h.lower() == header.lower()), None),
             )
             if header_index is None:
                 raise HeaderNotFoundException(header=header)
-- 
2.43.0


From 92de9fc0dbf70cb2500418b947f954560bd38fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:49 +0000
Subject: [PATCH 10/83] fix: REGULARITY 0 was treated as regularity 1

---
 src/libecalc/domain/regularity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/regularity.py b/src/libecalc/domain/regularity.py
index 5f2efa3..00e1576 100644
--- a/src/libecalc/domain/regularity.py
+++ b/src/libecalc/domain/regularity.py
@@ -31,7 +31,7 @@ class Regularity:
         self.expression_evaluator = expression_evaluator
         try:
             self.temporal_expression = TemporalExpression(
-                expression=expression_input or self.default_expression_value(),
+                expression=expression_input if expression_input is not None else self.default_expression_value(),
                 target_period=target_period,
                 expression_evaluator=expression_evaluator,
             )
-- 
2.43.0


From c1746bc517a9d4d08b9cac359bf9d15874a4804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:10 +0000
Subject: [PATCH 11/83] fix: a CONDITION that is the number 0 was ignored

---
 .../presentation/yaml/mappers/consumer_function_mapper.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index cc58f8e..24aca89 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -178,7 +178,7 @@ class ConditionedModel(Protocol):
 
 
 def _map_condition(energy_usage_model: ConditionedModel) -> str | int | float | None:
-    if energy_usage_model.condition:
+    if energy_usage_model.condition is not None:
         condition_value = energy_usage_model.condition
         return condition_value
     elif energy_usage_model.conditions:
-- 
2.43.0


From 252efdf10a6918c5d7720109b1606903f781da2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:00 +0000
Subject: [PATCH 12/83] fix: CONDITIONS of venting emitter rates were ignored

---
 src/libecalc/presentation/yaml/mappers/component_mapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/component_mapper.py b/src/libecalc/presentation/yaml/mappers/component_mapper.py
index 02bf75e..16a5fd8 100644
--- a/src/libecalc/presentation/yaml/mappers/component_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/component_mapper.py
@@ -46,6 +46,7 @@ from libecalc.presentation.yaml.domain.yaml_component import YamlComponent
 from libecalc.presentation.yaml.mappers.consumer_function_mapper import (
     ConsumerFunctionMapper,
     InvalidEnergyUsageModelException,
+    _map_condition,
 )
 from libecalc.presentation.yaml.mappers.yaml_mapping_context import MappingContext
 from libecalc.presentation.yaml.mappers.yaml_path import YamlPath
@@ -569,7 +570,7 @@ class EcalcModelMapper:
                             time_series_expression=TimeSeriesExpression(
                                 expression=emission.rate.value,
                                 expression_evaluator=self._expression_evaluator,
-                                condition=emission.rate.condition,
+                                condition=_map_condition(emission.rate),
                             ),
                             unit=emission.rate.unit.to_unit(),
                             rate_type=emission.rate.type,
@@ -598,7 +599,7 @@ class EcalcModelMapper:
                             time_series_expression=TimeSeriesExpression(
                                 expression=data.volume.rate.value,
                                 expression_evaluator=self._expression_evaluator,
-                                condition=data.volume.rate.condition,
+                                condition=_map_condition(data.volume.rate),
                             ),
                             unit=data.volume.rate.unit.to_unit(),
                             rate_type=data.volume.rate.type,
-- 
2.43.0


From 4d2527b4a72329916fc688836e5365387ffcd376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:21 +0000
Subject: [PATCH 13/83] fix: emissions listed twice under the same name in a
 venting emitter overwrote each other

---
 .../infrastructure/emitters/venting_emitter.py     | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/libecalc/domain/infrastructure/emitters/venting_emitter.py b/src/libecalc/domain/infrastructure/emitters/venting_emitter.py
index 445408a..9361da2 100644
--- a/src/libecalc/domain/infrastructure/emitters/venting_emitter.py
+++ b/src/libecalc/domain/infrastructure/emitters/venting_emitter.py
@@ -177,16 +177,19 @@ class DirectVentingEmitter(VentingEmitter):
         self.emitter_type = VentingType.DIRECT_EMISSION
 
     def _get_emissions(self) -> dict[str, TimeSeriesStreamDayRate]:
-        emissions = {}
+        emissions: dict[str, TimeSeriesStreamDayRate] = {}
         for emission in self.emissions:
             emission_rate = emission.emission_rate.get_stream_day_values()
             unit = emission.emission_rate.unit
             emission_rate = unit.to(Unit.TONS_PER_DAY)(emission_rate)
-            emissions[emission.name] = TimeSeriesStreamDayRate(
+            emission_time_series = TimeSeriesStreamDayRate(
                 periods=emission.emission_rate.get_periods(),
                 values=emission_rate,
                 unit=Unit.TONS_PER_DAY,
             )
+            if emission.name in emissions:
+                emission_time_series = emissions[emission.name] + emission_time_series
+            emissions[emission.name] = emission_time_series
         return emissions
 
 
@@ -199,7 +202,7 @@ class OilVentingEmitter(VentingEmitter, StorageContainer):
     def _get_emissions(self) -> dict[str, TimeSeriesStreamDayRate]:
         oil_rates = self.get_oil_rates()
 
-        emissions = {}
+        emissions: dict[str, TimeSeriesStreamDayRate] = {}
         for emission in self.volume.emissions:
             factors = self.volume.oil_volume_rate._time_series_expression.expression_evaluator.evaluate(
                 Expression.setup_from_expression(value=emission.emission_factor)
@@ -207,11 +210,14 @@ class OilVentingEmitter(VentingEmitter, StorageContainer):
 
             emission_rate = [oil_rate * factor for oil_rate, factor in zip(oil_rates, factors)]
             emission_rate = Unit.KILO_PER_DAY.to(Unit.TONS_PER_DAY)(emission_rate)
-            emissions[emission.name] = TimeSeriesStreamDayRate(
+            emission_time_series = TimeSeriesStreamDayRate(
                 periods=self.volume.oil_volume_rate.get_periods(),
                 values=emission_rate,
                 unit=Unit.TONS_PER_DAY,
             )
+            if emission.name in emissions:
+                emission_time_series = emissions[emission.name] + emission_time_series
+            emissions[emission.name] = emission_time_series
         return emissions
 
     def get_oil_rates(self) -> list[float]:
-- 
2.43.0


From 406b998eeb61ec29f8de44a2663a237cb9b7bd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:55 +0000
Subject: [PATCH 14/83] fix: a turbine load beyond the maximum only because of
 the power adjustment was reported as valid

---
 .../domain/infrastructure/energy_components/turbine/turbine.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py b/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py
index 219fde3..c72cb4f 100644
--- a/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py
+++ b/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py
@@ -72,7 +72,7 @@ class Turbine:
         load_list = array_to_list(load_adjusted) or []
         efficiency_list = array_to_list(efficiency) or []  # type: ignore[arg-type]
         fuel_usage_list = array_to_list(fuel_usage) or []
-        exceeds_max_list = array_to_list(load > self._maximum_load) or []
+        exceeds_max_list = array_to_list(load_adjusted > self._maximum_load) or []
 
         return TurbineResult(
             load=load_list,
-- 
2.43.0


From c71b20fdaa90a4a6d3e302a9b2f2e8c6ca6793c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:00 +0000
Subject: [PATCH 15/83] fix: a variable with date keys not in chronological
 order got its values on the wrong dates

---
 .../yaml/mappers/variables_mapper/variables_mapper.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py b/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
index 918fd59..404cec0 100644
--- a/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
@@ -32,10 +32,11 @@ class VariableProcessor:
         if isinstance(self.variable, YamlSingleVariable):
             return list(self.variable.value.evaluate(variables, fill_length=len(periods)))
         else:
-            variable_periods = Periods.create_periods(sorted(self.variable), include_before=False)
+            variable_start_dates = sorted(self.variable)
+            variable_periods = Periods.create_periods(variable_start_dates, include_before=False)
             processed_expressions = {
-                period: variable.value.evaluate(variables, fill_length=len(periods))
-                for period, variable in zip(variable_periods, self.variable.values())
+                period: self.variable[start_date].value.evaluate(variables, fill_length=len(periods))
+                for period, start_date in zip(variable_periods, variable_start_dates)
             }
 
             variable_result = []
-- 
2.43.0


From 2fd99413443c698af318e494fd8a0c2e047198b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:56 +0000
Subject: [PATCH 16/83] fix: maximum rate of sampled compressors with more than
 one variable raised TypeError (crossover in systems)

---
 .../core/sampled/compressor_model_sampled.py        | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
index 517a281..3a92a2d 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
@@ -148,10 +148,15 @@ class CompressorModelSampled:
         number_of_calculation_points = len(suction_pressures) if suction_pressures is not None else 1
         if self.support_max_rate:
             if self._qhull_sampled.support_max_rate:
-                return np.full(
-                    shape=number_of_calculation_points,
-                    fill_value=self._qhull_sampled.get_max_rate(),  # type: ignore[call-arg]
-                )
+                if isinstance(self._qhull_sampled, CompressorModelSampled3D):
+                    max_rate = self._qhull_sampled.get_max_rate(ps=suction_pressures, pd=discharge_pressures)
+                elif isinstance(self._qhull_sampled, CompressorModelSampled2DRatePd):
+                    max_rate = self._qhull_sampled.get_max_rate(discharge_pressure=discharge_pressures)
+                elif isinstance(self._qhull_sampled, CompressorModelSampled2DRatePs):
+                    max_rate = self._qhull_sampled.get_max_rate(ps=suction_pressures)
+                else:
+                    max_rate = self._qhull_sampled.get_max_rate()  # type: ignore[call-arg]
+                return np.full(shape=number_of_calculation_points, fill_value=max_rate)
             else:
                 return np.full(shape=number_of_calculation_points, fill_value=self._degenerated_rate)
         else:
-- 
2.43.0


From 2170ce151166c36264139ac1916f42e1621757d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:06 +0000
Subject: [PATCH 17/83] fix: maximum rate of a sampled compressor with turbine
 raised AttributeError (crossover in systems)

---
 .../process/compressor/core/sampled/compressor_model_sampled.py  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
index 3a92a2d..a98fbcb 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
@@ -50,6 +50,7 @@ class CompressorModelSampled:
     """
 
     fluid_required: bool = False
+    _fluid_model: None = None  # Not in use for sampled models
 
     def __init__(
         self,
-- 
2.43.0


From 606f83d761b020759256df132d12a94a89a72bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:38 +0000
Subject: [PATCH 18/83] fix: maximum rate of a compressor with turbine ignored
 its own power adjustment

---
 src/libecalc/domain/process/compressor/core/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/compressor/core/base.py b/src/libecalc/domain/process/compressor/core/base.py
index b0b0d51..89f6c86 100644
--- a/src/libecalc/domain/process/compressor/core/base.py
+++ b/src/libecalc/domain/process/compressor/core/base.py
@@ -111,7 +111,10 @@ class CompressorWithTurbineModel:
         results_max_standard_rate = self.compressor_model.evaluate()
         energy_result = results_max_standard_rate.get_energy_result()
 
-        max_power = self.turbine_model.max_power
+        # The highest compressor power that, after adjustment, is within the maximum load of the turbine
+        max_power = (
+            self.turbine_model.max_power - self._energy_usage_adjustment_constant
+        ) / self._energy_usage_adjustment_factor
 
         if energy_result.power is not None:
             powers = np.asarray(energy_result.power.values)
-- 
2.43.0


From 999adebff54f1b6bb7cacd8ac49c9f8f5e0e6c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:17 +0000
Subject: [PATCH 19/83] fix: HEAD_MARGIN of pump charts is given in meter
 liquid column but was used as J/kg

---
 .../presentation/yaml/mappers/facility_input.py        | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/facility_input.py b/src/libecalc/presentation/yaml/mappers/facility_input.py
index b789dc2..88157cc 100644
--- a/src/libecalc/presentation/yaml/mappers/facility_input.py
+++ b/src/libecalc/presentation/yaml/mappers/facility_input.py
@@ -1,4 +1,5 @@
 from libecalc.common.errors.exceptions import InvalidResourceException
+from libecalc.common.units import Unit
 from libecalc.domain.infrastructure.energy_components.generator_set import GeneratorSetModel
 from libecalc.domain.process.pump.pump import PumpModel
 from libecalc.domain.resource import Resource
@@ -17,6 +18,11 @@ def _get_float_column_or_none(resource: Resource, header: str) -> list[float] |
         return None
 
 
+def _head_margin_in_joule_per_kg(facility_data: YamlPumpChartSingleSpeed | YamlPumpChartVariableSpeed) -> float:
+    # HEAD_MARGIN is given in meter liquid column, regardless of the units of the chart
+    return Unit.POLYTROPIC_HEAD_METER_LIQUID_COLUMN.to(Unit.POLYTROPIC_HEAD_JOULE_PER_KG)(facility_data.head_margin)
+
+
 def _create_pump_model_single_speed_dto_model_data(
     resource: Resource,
     facility_data: YamlPumpChartSingleSpeed,
@@ -24,7 +30,7 @@ def _create_pump_model_single_speed_dto_model_data(
     pump_chart = UserDefinedChartData.from_resource(resource, units=facility_data.units, is_single_speed=True)
     return PumpModel(
         pump_chart=pump_chart,
-        head_margin=facility_data.head_margin,
+        head_margin=_head_margin_in_joule_per_kg(facility_data),
     )
 
 
@@ -35,7 +41,7 @@ def _create_pump_chart_variable_speed_dto_model_data(
     pump_chart = UserDefinedChartData.from_resource(resource, units=facility_data.units, is_single_speed=False)
     return PumpModel(
         pump_chart=pump_chart,
-        head_margin=facility_data.head_margin,
+        head_margin=_head_margin_in_joule_per_kg(facility_data),
     )
 
 
-- 
2.43.0


From 6fe3663e956766c6ac10c3d4a8a42b9c1bef1223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:55 +0000
Subject: [PATCH 20/83] fix: a generator set defined only outside the run
 period raised IndexError

---
 .../yaml/mappers/component_mapper.py          | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/component_mapper.py b/src/libecalc/presentation/yaml/mappers/component_mapper.py
index 16a5fd8..5110acc 100644
--- a/src/libecalc/presentation/yaml/mappers/component_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/component_mapper.py
@@ -317,6 +317,19 @@ class EcalcModelMapper:
             assert isinstance(parsed_consumer, ElectricityConsumer)
             consumers.append(parsed_consumer)
 
+        if len(generator_set_model_data) == 0:
+            if len(consumers) == 0:
+                # Skip generator set, neither the generator set nor any of its consumers are active in the period
+                return None
+            raise ModelValidationException(
+                errors=[
+                    self._create_error(
+                        "No generator set model is active, but the generator set has active consumers",
+                        specific_path=yaml_path.append("ELECTRICITY2FUEL"),
+                    )
+                ]
+            )
+
         try:
             category_model = TemporalModel.create(data.category, target_period=self._target_period)
             if data.cable_loss and category_model is not None:
@@ -412,7 +425,11 @@ class EcalcModelMapper:
                 parent=id,
                 defaults=defaults,
             )
-            assert parsed_generator_set is not None and isinstance(parsed_generator_set, GeneratorSetEnergyComponent)
+            if parsed_generator_set is None:
+                # Skip None generator set, filtered based on start date
+                continue
+
+            assert isinstance(parsed_generator_set, GeneratorSetEnergyComponent)
             generator_sets.append(parsed_generator_set)
 
         fuel_consumers_yaml_path = yaml_path.append("FUELCONSUMERS")
-- 
2.43.0


From b0fbb8d860a4818bbe6c443e63ec55725333d516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:55 +0000
Subject: [PATCH 21/83] fix: an installation without components active in the
 run period raised AssertionError

---
 src/libecalc/presentation/yaml/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/model.py b/src/libecalc/presentation/yaml/model.py
index 42c9105..f49e9e7 100644
--- a/src/libecalc/presentation/yaml/model.py
+++ b/src/libecalc/presentation/yaml/model.py
@@ -492,11 +492,13 @@ class YamlModel:
             # TODO: There's a difference between a container and a provider, but we capture both in our EnergyModel. children vs consumer, installation vs genset. Installation is a container, genset is a provider
             assert isinstance(energy_model, EnergyContainerEnergyModel)
             children = energy_model.get_all_children(component_id)
-            assert len(children) > 0
             for child_id in children:
                 validity.append(self.get_validity(child_id))
 
-            return reduce(lambda acc, current: acc * current, validity)
+            # Without any component active in the period, there is nothing that can be invalid
+            periods = self._variables.periods
+            all_valid = TimeSeriesBoolean(periods=periods, values=[True] * len(periods), unit=Unit.NONE)
+            return reduce(lambda acc, current: acc * current, validity, all_valid)
 
         if component_id in self._consumer_results:
             return self._consumer_results[component_id].is_valid
-- 
2.43.0


From 4c603041c14d53adef478aca340ec8fbe4aca6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:34 +0000
Subject: [PATCH 22/83] fix: TimeSeriesRate.extend refuses series with a gap or
 overlap, like the other time series

---
 src/libecalc/common/utils/rates.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index 3dc88fa..89275d7 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -803,11 +803,17 @@ class TimeSeriesRate(TimeSeries[float]):
                 "Mismatching rate type. Currently you can not extend stream/calendar day rates with calendar/stream day rates."
             )
 
+        first, second = self, other
+        if len(self) > 0 and len(other) > 0 and self.last_date != other.first_date:
+            if self.first_date != other.last_date:
+                raise ValueError("Can not extend two TimeSeries when there is a gap in time between them.")
+            first, second = other, self
+
         return self.__class__(
-            periods=self.periods + other.periods,
-            values=self.values + other.values,
+            periods=first.periods + second.periods,
+            values=first.values + second.values,
             unit=self.unit,
-            regularity=self.regularity + other.regularity,
+            regularity=first.regularity + second.regularity,
             rate_type=self.rate_type,
         )
 
-- 
2.43.0


From 4c428df5a76dc290aa90c9501572a498b17c27b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:23 +0000
Subject: [PATCH 23/83] fix: sampled compressor with small rates no longer
 scales its rates by zero

---
 .../core/sampled/compressor_model_sampled_3d.py           | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_3d.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_3d.py
index d00f163..325b944 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_3d.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_3d.py
@@ -121,8 +121,12 @@ class CompressorModelSampled3D:
         sampled_data_scaled = sampled_data[self.variable_order_3d].copy().astype("float64")
         if rescale_rate:
             self._do_rescale = True
-            self._scale_factor_rate = round(
-                2 * sampled_data[RATE_NAME].mean() / (sampled_data[PS_NAME].mean() + sampled_data[PD_NAME].mean())
+            # at least 1, small rates would otherwise give a scale factor of zero
+            self._scale_factor_rate = max(
+                1,
+                round(
+                    2 * sampled_data[RATE_NAME].mean() / (sampled_data[PS_NAME].mean() + sampled_data[PD_NAME].mean())
+                ),
             )
             sampled_data_scaled[RATE_NAME] = sampled_data_scaled[RATE_NAME] / self._scale_factor_rate
         else:
-- 
2.43.0


From 9b092a4b7cd056453780357b0d367f3c6967bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:55 +0000
Subject: [PATCH 24/83] fix: sampled 2D compressor split its working area by
 the middle of the bounding box and failed on tables without it

---
 .../core/sampled/convex_hull_common.py        | 24 ++++++-------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py b/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py
index 748e1ef..35ba4a3 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py
@@ -106,23 +106,10 @@ def get_lower_upper_qhull(qh: ConvexHull, axis: int = 0, case_2d: str = "rate_ps
     These functions are used for further computation of functions to be used for
     projection of (rate, ps, pd) points.
     """
-    # Select one point in the middle of the convex hull
-    test_point = (qh.max_bound + qh.min_bound) / 2
-
-    non_boundary_simplices = np.argwhere(qh.equations[:, axis] != 0.0)[:, 0]
-    eqs_non_boundary_unified = qh.equations[non_boundary_simplices, :] / qh.equations[
-        non_boundary_simplices, axis
-    ].reshape(-1, 1)
-
-    eval_axes = [x for x in range(qh.ndim) if x != axis]
-    test_values = -1 * eqs_non_boundary_unified[:, -1]
-    for ax in eval_axes:
-        test_values -= eqs_non_boundary_unified[:, ax] * test_point[ax]
-
-    # The upper simplices are the ones with hyperplane test value larger than the internal point
-    # The lower simplices are the ones with hyperplane test values smaller
-    upper_simplices_indices = non_boundary_simplices[test_values >= test_point[axis]]
-    lower_simplices_indices = non_boundary_simplices[test_values <= test_point[axis]]
+    # The equations hold the outward normals of the simplices: the upper simplices are the ones facing the positive
+    # direction of the axis, the lower simplices the ones facing the negative direction
+    upper_simplices_indices = np.argwhere(qh.equations[:, axis] > 0.0)[:, 0]
+    lower_simplices_indices = np.argwhere(qh.equations[:, axis] < 0.0)[:, 0]
 
     # Find the points of the upper and lower simplices
     upper_point_indices = np.unique(qh.simplices[upper_simplices_indices, :].reshape(-1, 1))
@@ -224,6 +211,9 @@ def get_lower_upper_qhull(qh: ConvexHull, axis: int = 0, case_2d: str = "rate_ps
                 upper_monotonic_correct_point_indices = np.unique(
                     qh.simplices[upper_monotonic_correct_simplices_indices, :].reshape(-1, 1)
                 )
+                if len(upper_monotonic_correct_point_indices) == 0:
+                    # No part of the upper hull is monotonic, only the point with the highest value is left
+                    upper_monotonic_correct_point_indices = qh.vertices[[np.argmax(qh.points[qh.vertices, axis])]]
                 upper_monotonic_correct_points = qh.points[upper_monotonic_correct_point_indices, :]
     else:
         upper_monotonic_correct_points = None
-- 
2.43.0


From 44145c79a249effd52cfab653cd128385bfbaf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:17 +0000
Subject: [PATCH 25/83] fix: ecalc run failed without writing any output for
 models with no CO2 emissions

---
 src/ecalc_cli/emission_intensity.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ecalc_cli/emission_intensity.py b/src/ecalc_cli/emission_intensity.py
index ba86df7..fa5a006 100644
--- a/src/ecalc_cli/emission_intensity.py
+++ b/src/ecalc_cli/emission_intensity.py
@@ -45,6 +45,10 @@ class EmissionIntensityCalculator:
         self.emissions = emissions
         self.frequency = frequency
 
+        if self._co2_emission_result() is None:
+            # Emission intensity is only calculated for CO2
+            return
+
         self._hydrocarbon_export_cumulative = hydrocarbon_export_rate.to_volumes().cumulative()
         self._intensity_calculator_sm3 = EmissionIntensity(
             emission_cumulative=self._cumulative_rate_kg(),
@@ -62,7 +66,10 @@ class EmissionIntensityCalculator:
         Returns:
             EmissionIntensityResults: The calculated emission intensity results.
         """
-        emission_intensities = []
+        emission_intensities: list[EmissionIntensityResult] = []
+
+        if self._co2_emission_result() is None:
+            return EmissionIntensityResults(results=emission_intensities)
 
         if self.frequency == Frequency.YEAR:
             intensity_yearly_sm3 = self._intensity_calculator_sm3.calculate_for_periods()
@@ -83,8 +90,8 @@ class EmissionIntensityCalculator:
         )
         return EmissionIntensityResults(results=emission_intensities)
 
-    def _co2_emission_result(self) -> EmissionResult:
-        return next((value for key, value in self.emissions.items() if key.lower() == "co2"))
+    def _co2_emission_result(self) -> EmissionResult | None:
+        return next((value for key, value in self.emissions.items() if key.lower() == "co2"), None)
 
     def _cumulative_rate_kg(self) -> TimeSeriesVolumesCumulative:
         return self._co2_emission_result().get_cumulative_kg()
-- 
2.43.0


From e3df88ed74815bd48be25d8bec6c48d92889a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:02 +0000
Subject: [PATCH 26/83] fix: highest usage from shore in the LTP export took
 the value at the start of each reported period instead of the highest in it

---
 src/libecalc/presentation/exporter/queries.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/libecalc/presentation/exporter/queries.py b/src/libecalc/presentation/exporter/queries.py
index c367740..9fbd713 100644
--- a/src/libecalc/presentation/exporter/queries.py
+++ b/src/libecalc/presentation/exporter/queries.py
@@ -3,7 +3,7 @@ from collections import defaultdict
 
 from libecalc.common.time_utils import Frequency, Period, Periods, resample_periods
 from libecalc.common.units import Unit
-from libecalc.common.utils.rates import TimeSeriesFloat, TimeSeriesVolumes
+from libecalc.common.utils.rates import TimeSeriesVolumes
 from libecalc.presentation.exporter.domain.exportable import Exportable
 
 
@@ -269,11 +269,10 @@ class MaxUsageFromShoreQuery(Query):
         # The maximum value with in each period in sorted_results should be found for the new periods
 
         return {
-            period: TimeSeriesFloat(periods=Periods(period_keys), values=list(sorted_result.values()), unit=unit)
-            .resample(freq=frequency)
-            .for_period(period)
-            .max
-            for period in resample_periods(periods=installation_graph.get_periods(), frequency=frequency)
+            period: max(
+                value for value_period, value in sorted_result.items() if Period.intersects(value_period, period)
+            )
+            for period in resample_periods(periods=Periods(period_keys), frequency=frequency)
         }
 
 
-- 
2.43.0


From 6baba8c55fe65819c8601bc1d22301c45d4bb359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:42 +0000
Subject: [PATCH 27/83] fix: a choke or pressure drop taking all of the inlet
 pressure asked for a flash at zero pressure instead of reporting insufficient
 inlet pressure

---
 src/libecalc/process/process_units/choke.py            | 2 +-
 src/libecalc/process/process_units/pressure_dropper.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/process/process_units/choke.py b/src/libecalc/process/process_units/choke.py
index 629e2d5..f6fad89 100644
--- a/src/libecalc/process/process_units/choke.py
+++ b/src/libecalc/process/process_units/choke.py
@@ -32,7 +32,7 @@ class Choke(ProcessUnit):
     def propagate_stream(self, inlet_stream: FluidStream) -> FluidStream:
         if self._pressure_change > 0.0:
             pressure_bara = inlet_stream.pressure_bara - self._pressure_change
-            if pressure_bara < 0.0:
+            if pressure_bara <= 0.0:
                 raise InsufficientInletPressureError(
                     process_unit_id=self._id,
                     inlet_pressure_bara=inlet_stream.pressure_bara,
diff --git a/src/libecalc/process/process_units/pressure_dropper.py b/src/libecalc/process/process_units/pressure_dropper.py
index 19a60f6..772ed14 100644
--- a/src/libecalc/process/process_units/pressure_dropper.py
+++ b/src/libecalc/process/process_units/pressure_dropper.py
@@ -32,7 +32,7 @@ class PressureDropper(ProcessUnit):
     def propagate_stream(self, inlet_stream: FluidStream) -> FluidStream:
         if self._pressure_drop_bara > 0.0:
             new_pressure_bara = inlet_stream.pressure_bara - self._pressure_drop_bara
-            if new_pressure_bara < 0.0:
+            if new_pressure_bara <= 0.0:
                 raise InsufficientInletPressureError(
                     process_unit_id=self._id,
                     inlet_pressure_bara=inlet_stream.pressure_bara,
-- 
2.43.0


From b0db2929b1432ad9a56e6665600a369263ea4159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:03 +0000
Subject: [PATCH 28/83] fix: overflow between trains gave each train another
 train's share of the rate when the overflow ran against the order of the
 trains

---
 .../process/stream_distribution/common_stream_distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/process/stream_distribution/common_stream_distribution.py b/src/libecalc/process/stream_distribution/common_stream_distribution.py
index 71b0aef..045bf4b 100644
--- a/src/libecalc/process/stream_distribution/common_stream_distribution.py
+++ b/src/libecalc/process/stream_distribution/common_stream_distribution.py
@@ -66,7 +66,9 @@ class CommonStreamDistribution(StreamDistribution, Generic[T]):
     def _adjust_for_overflow(self) -> dict[T, float]:
         overflow_map: dict[T, list[float]] = defaultdict(list)
         adjusted_rates: dict[T, float] = {}
-        for item_id, rate in zip(self._get_sorted_items(), self._rates, strict=True):
+        rates = dict(zip(self._items, self._rates, strict=True))
+        for item_id in self._get_sorted_items():
+            rate = rates[item_id]
             overflow = self._get_overflow_out(item_id)
             overflow_rate = sum(overflow_map[item_id])
             current_rate = rate + overflow_rate
-- 
2.43.0


From f4feff84927e473683084ca6c8dd0a24e2ac7360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:03 +0000
Subject: [PATCH 29/83] fix: the capacity found for a compressor train could be
 a rate the train cannot handle

---
 .../process/process_solver/feasibility_solver.py    | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/libecalc/process/process_solver/feasibility_solver.py b/src/libecalc/process/process_solver/feasibility_solver.py
index a2ca9b1..1e55ff6 100644
--- a/src/libecalc/process/process_solver/feasibility_solver.py
+++ b/src/libecalc/process/process_solver/feasibility_solver.py
@@ -58,14 +58,13 @@ class FeasibilitySolver:
         upper_bound_sm3_per_day: float,
     ) -> float:
         boundary = Boundary(min=0.0, max=upper_bound_sm3_per_day)
+
+        def probe(rate: float) -> BisectResult:
+            feasible = self._is_feasible(inlet_stream.with_standard_rate(rate), target_pressure)
+            return BisectResult(higher=feasible, accepted=feasible)
+
         try:
-            return self._search_strategy.search(
-                boundary=boundary,
-                func=lambda rate: BisectResult(
-                    higher=self._is_feasible(inlet_stream.with_standard_rate(rate), target_pressure),
-                    accepted=True,
-                ),
-            )
+            return self._search_strategy.search(boundary=boundary, func=probe)
         except DidNotConvergeError:
             return 0.0
 
-- 
2.43.0


From 0d43084fcda4df21e3a31501cd257698c57238d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:43 +0000
Subject: [PATCH 30/83] fix: a target pressure met by speed to within the
 search tolerance was handed to the pressure control, which could call it
 unreachable

---
 src/libecalc/process/process_solver/pipeline_section_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/process/process_solver/pipeline_section_solver.py b/src/libecalc/process/process_solver/pipeline_section_solver.py
index 1027b1c..943a818 100644
--- a/src/libecalc/process/process_solver/pipeline_section_solver.py
+++ b/src/libecalc/process/process_solver/pipeline_section_solver.py
@@ -145,7 +145,7 @@ class PipelineSectionSolver(PipelineSolver):
             configurations=speed_and_anti_surge_configurations,
         )
 
-        if outlet_at_chosen_speed.pressure_bara == pressure_target:
+        if speed_finding.success or outlet_at_chosen_speed.pressure_bara == pressure_target:
             return Solution(configuration=speed_and_anti_surge_configurations)  # No pressure control needed
 
         pressure_control_solution = self._pipeline_section.get_pressure_control_strategy().apply(
-- 
2.43.0


From 1d5e47a5f9d09b01af414ce45805f57af4bac826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:11 +0000
Subject: [PATCH 31/83] fix: the recirculation returned with an upstream choke
 could be that of another choke setting than the one returned

---
 .../process/process_solver/pressure_control/upstream_choke.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libecalc/process/process_solver/pressure_control/upstream_choke.py b/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
index 7eb2d1a..c481be2 100644
--- a/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
+++ b/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
@@ -78,6 +78,9 @@ class UpstreamChokePressureControlStrategy(PressureControlStrategy):
             return self._simulator.run(inlet_stream=inlet_stream)
 
         finding = finder.find(choke_func)
+        if finding.success:
+            # The root finder's last probe is not necessarily the root it returns
+            choke_func(finding.configuration)
         choke_config = Configuration(
             configuration_handler_id=self._choke_configuration_handler_id, value=finding.configuration
         )
-- 
2.43.0


From a5f558040effb4039ab0bfb0f984eb7c23710168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:45 +0000
Subject: [PATCH 32/83] fix: a common recirculation loop without a feasible
 rate at the lowest speed made the solver give up although higher speeds meet
 the target

---
 .../finders/shaft_speed_finder.py              | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/process/process_solver/finders/shaft_speed_finder.py b/src/libecalc/process/process_solver/finders/shaft_speed_finder.py
index 69610bf..0c3be9c 100644
--- a/src/libecalc/process/process_solver/finders/shaft_speed_finder.py
+++ b/src/libecalc/process/process_solver/finders/shaft_speed_finder.py
@@ -11,7 +11,12 @@ from libecalc.process.process_pipeline.process_error import (
 from libecalc.process.process_solver.boundary import Boundary
 from libecalc.process.process_solver.configuration import SpeedConfiguration
 from libecalc.process.process_solver.finder import Finder, Finding
-from libecalc.process.process_solver.search_strategies import Bisect, BisectResult, RootFindingStrategy
+from libecalc.process.process_solver.search_strategies import (
+    Bisect,
+    BisectResult,
+    DidNotConvergeError,
+    RootFindingStrategy,
+)
 from libecalc.process.process_solver.solver import (
     CompressorStonewallFailure,
     CompressorSurgeFailure,
@@ -150,13 +155,19 @@ class ShaftSpeedFinder(Finder[SpeedConfiguration]):
         ``CompressorStonewallError``, ``CompressorThermodynamicCalculationError``, and
         ``InsufficientInletPressureError`` at the boundary minimum are recoverable:
         higher speed raises the stonewall limit or enters the valid EOS/pressure range;
-        search upward.
+        search upward. So is ``DidNotConvergeError``: no common recirculation rate keeps
+        every compressor both above its surge line and below its stonewall at that speed.
         """
         minimum_speed_configuration = SpeedConfiguration(speed=self._boundary.min)
         try:
             minimum_result = func(minimum_speed_configuration)
             return minimum_speed_configuration, minimum_result
-        except (CompressorStonewallError, CompressorThermodynamicCalculationError, InsufficientInletPressureError) as e:
+        except (
+            CompressorStonewallError,
+            CompressorThermodynamicCalculationError,
+            InsufficientInletPressureError,
+            DidNotConvergeError,
+        ) as e:
             logger.debug(f"No solution found for minimum speed: {self._boundary.min}", exc_info=e)
 
             def bool_speed_func(x: float) -> BisectResult:
@@ -167,6 +178,7 @@ class ShaftSpeedFinder(Finder[SpeedConfiguration]):
                     CompressorStonewallError,
                     CompressorThermodynamicCalculationError,
                     InsufficientInletPressureError,
+                    DidNotConvergeError,
                 ):
                     return BisectResult(higher=True, accepted=False)
                 except CompressorSurgeError:
-- 
2.43.0


From 6237fe8a04b4005a2d4c480f2ce153fb6264a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:27 +0000
Subject: [PATCH 33/83] fix: a train that could not take anything made the
 distribution of rates fail on a rate rounded to below zero

---
 .../process/stream_distribution/common_stream_distribution.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/process/stream_distribution/common_stream_distribution.py b/src/libecalc/process/stream_distribution/common_stream_distribution.py
index 045bf4b..650b013 100644
--- a/src/libecalc/process/stream_distribution/common_stream_distribution.py
+++ b/src/libecalc/process/stream_distribution/common_stream_distribution.py
@@ -81,7 +81,8 @@ class CommonStreamDistribution(StreamDistribution, Generic[T]):
                     pressure_bara=self._inlet_stream.pressure_bara,
                 )
                 excess_rate = item.get_excess_rate(stream)
-                handled_rate = current_rate - excess_rate
+                # The excess is part of the standard rate of the stream, which differs from the rate asked for by rounding
+                handled_rate = stream.standard_rate_sm3_per_day - excess_rate
                 overflow_map[overflow.to_id].append(excess_rate)
                 adjusted_rates[item_id] = handled_rate
             else:
-- 
2.43.0


From cd3c241fbeacd33d0be4856db7ce1b319ca879d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:11 +0000
Subject: [PATCH 34/83] fix: an outlet pressure a hair above the target made
 the search for the upstream choke fail with a ValueError

---
 .../process_solver/finders/choke_delta_pressure_finders.py     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/process/process_solver/finders/choke_delta_pressure_finders.py b/src/libecalc/process/process_solver/finders/choke_delta_pressure_finders.py
index 96401bf..a111675 100644
--- a/src/libecalc/process/process_solver/finders/choke_delta_pressure_finders.py
+++ b/src/libecalc/process/process_solver/finders/choke_delta_pressure_finders.py
@@ -80,8 +80,9 @@ class UpstreamChokeDeltaPressureFinder(Finder):
                 ),
             )
 
+        # The pressure without choking is above target, with the smallest choking in the boundary it may be below
         delta_pressure = self._root_finding_strategy.find_root(
-            boundary=Boundary(min=self._boundary.min, max=search_max),
+            boundary=Boundary(min=0.0, max=search_max),
             func=lambda x: outlet_pressure(x) - self._target_pressure,
         )
         return Finding(configuration=ChokeConfiguration(delta_pressure=delta_pressure))
-- 
2.43.0


From d455f707ce7c9d4937f177f0a6a4236574328bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:40 +0000
Subject: [PATCH 35/83] fix: the section governing the speed of a common shaft
 was called unable to reach its target when the speed found was off by the
 search tolerance

---
 .../process/process_solver/multi_pressure_solver.py        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/process/process_solver/multi_pressure_solver.py b/src/libecalc/process/process_solver/multi_pressure_solver.py
index 1d61285..74e3835 100644
--- a/src/libecalc/process/process_solver/multi_pressure_solver.py
+++ b/src/libecalc/process/process_solver/multi_pressure_solver.py
@@ -111,7 +111,9 @@ class MultiPressureSolver(PipelineSolver):
 
         current_inlet = inlet_stream
 
-        for pipeline_section, target in zip(self._pipeline_sections, pressure_targets, strict=True):
+        for pipeline_section, target, required_speed in zip(
+            self._pipeline_sections, pressure_targets, speed_configurations, strict=True
+        ):
             pipeline_section.get_pressure_control_strategy().reset()  #  to clear a potential upstream/downstream choke
             pipeline_section.get_runner().apply_configuration(shaft_config)
 
@@ -134,7 +136,8 @@ class MultiPressureSolver(PipelineSolver):
                     return solution
                 pipeline_section.get_runner().apply_configurations(pressure_control_solution.configuration)
                 outlet = pipeline_section.get_runner().run(inlet_stream=current_inlet)
-            elif outlet.pressure_bara < target:
+            elif outlet.pressure_bara < target and required_speed < shaft_config.value:
+                # A binding section meets its target at this speed to within the tolerance of the speed search
                 return Solution.target_pressure_unreachable(
                     configuration=solution.configuration,
                     achievable_pressure_bara=outlet.pressure_bara,
-- 
2.43.0


From 94c73555621ea4795dc7065f331cad46fdf431b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 36/83] fix: no intermediate pressure for the parts of a train
 split at the interstage pressure

---
 src/libecalc/domain/process/compressor/core/train/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/base.py b/src/libecalc/domain/process/compressor/core/train/base.py
index 49a2051..047b179 100644
--- a/src/libecalc/domain/process/compressor/core/train/base.py
+++ b/src/libecalc/domain/process/compressor/core/train/base.py
@@ -329,7 +329,7 @@ class CompressorTrainModel(ABC):
             if constraints.rates is not None:
                 calculated_intermediate_pressure = (
                     results.stage_results[self.stage_number_interstage_pressure - 1].discharge_pressure
-                    if self.stage_number_interstage_pressure is not None
+                    if self.stage_number_interstage_pressure is not None and constraints.interstage_pressure is not None
                     else None
                 )
             else:
-- 
2.43.0


From 033b569f8e6529850e64d0f6c073fc171a8d2a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 37/83] fix: maximum power is checked for choked and
 individually recirculated trains too

---
 .../compressor/core/train/compressor_train_common_shaft.py  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 0b48cd9..ed2b346 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -698,6 +698,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 )
                 train_result.stage_results = new_train_result.stage_results
                 train_result.outlet_stream = new_train_result.outlet_stream
+                train_result.above_maximum_power = new_train_result.above_maximum_power
                 train_result.target_pressure_status = self.check_target_pressures(
                     constraints=constraints,
                     results=train_result,
@@ -895,6 +896,11 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             outlet_stream=stage_result.outlet_stream,
             speed=self.shaft.get_speed(),
             stage_results=stage_results,
+            above_maximum_power=(
+                sum(stage_result.power_megawatt for stage_result in stage_results) > self.maximum_power
+                if self.maximum_power
+                else False
+            ),
             target_pressure_status=target_pressure_status,
         )
 
-- 
2.43.0


From cc3af2734cdd56a5480fa5fb15f5672cb5aea0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 38/83] fix: upstream choke: search up to the suction pressure
 and allow pressure drops ahead of stages

---
 .../train/compressor_train_common_shaft.py    | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index ed2b346..b570347 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -30,6 +30,7 @@ from libecalc.domain.process.core.results.compressor import TargetPressureStatus
 from libecalc.domain.process.value_objects.chart.chart_area_flag import ChartAreaFlag
 from libecalc.process.fluid_stream.fluid_model import FluidModel
 from libecalc.process.fluid_stream.fluid_service import FluidService
+from libecalc.process.process_pipeline.process_error import InsufficientInletPressureError
 from libecalc.process.shaft import Shaft, SingleSpeedShaft, VariableSpeedShaft
 
 
@@ -758,13 +759,22 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         assert constraints.discharge_pressure is not None
         target_discharge_pressure = constraints.discharge_pressure
 
+        def _discharge_pressure_given_inlet_pressure(inlet_pressure: float) -> float:
+            try:
+                return _calculate_train_result_given_inlet_pressure(inlet_pressure=inlet_pressure).discharge_pressure
+            except InsufficientInletPressureError:
+                # Not enough pressure for the pressure drops ahead of the stages
+                return 0.0
+
+        train_result_without_choking = self.calculate_compressor_train(constraints=constraints)
+        if train_result_without_choking.discharge_pressure <= target_discharge_pressure:
+            # Choking can only lower the pressure
+            return train_result_without_choking
+
         result_inlet_pressure = find_root(
             lower_bound=EPSILON + self.stages[0].pressure_drop_ahead_of_stage,
-            upper_bound=target_discharge_pressure,
-            func=lambda x: (
-                _calculate_train_result_given_inlet_pressure(inlet_pressure=x).discharge_pressure
-                - target_discharge_pressure
-            ),
+            upper_bound=constraints.suction_pressure,
+            func=lambda x: _discharge_pressure_given_inlet_pressure(inlet_pressure=x) - target_discharge_pressure,
         )
 
         train_result = _calculate_train_result_given_inlet_pressure(inlet_pressure=result_inlet_pressure)
-- 
2.43.0


From 656f89ce49c0d9f12a76f6ee38eeda4618eaa00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 39/83] fix: common ASV: what exceeds the rate into the train
 is recirculated, also in the search

---
 .../train/compressor_train_common_shaft.py    | 35 ++++++-------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index b570347..d70eb21 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -938,33 +938,22 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         assert constraints.inlet_rate is not None, "inlet rate is required for ASV pressure control"
         assert constraints.suction_pressure is not None, "suction_pressure is required for ASV pressure control"
 
-        fluid_model = self.fluid_model
-        minimum_mass_rate_kg_per_hour = self._fluid_service.standard_rate_to_mass_rate(
-            fluid_model=fluid_model,
-            standard_rate_m3_per_day=constraints.inlet_rate,
+        # What reaches the first compressor is what enters the train less what is taken out ahead of it
+        self.reset_rate_modifiers()
+        inlet_stream_first_compressor = (
+            self.calculate_compressor_train(constraints=constraints).stage_results[0].inlet_stream
         )
-        # Iterate on rate until pressures are met
-        density_train_inlet_fluid = self._fluid_service.create_fluid(
-            fluid_model=fluid_model,
-            pressure_bara=constraints.suction_pressure,
-            temperature_kelvin=self.stages[0].inlet_temperature_kelvin,
-        ).density
+        minimum_mass_rate_kg_per_hour = inlet_stream_first_compressor.mass_rate_kg_per_h
+        density_train_inlet_fluid = inlet_stream_first_compressor.density
 
         def _calculate_train_result_given_mass_rate(
             mass_rate_kg_per_hour: float,
         ) -> CompressorTrainResultSingleTimeStep:
-            self.reset_rate_modifiers()
-            return self.calculate_compressor_train(
-                constraints=constraints.create_conditions_with_new_input(
-                    new_rate=self._fluid_service.mass_rate_to_standard_rate(fluid_model, mass_rate_kg_per_hour),
-                ),
-            )
-
-        def _calculate_train_result_given_additional_mass_rate(
-            additional_mass_rate_kg_per_hour: float,
-        ) -> CompressorTrainResultSingleTimeStep:
+            # The mass rate is the rate through the compressors; what exceeds the rate into the train is recirculated
             for stage in self.stages:
-                stage.rate_modifier.mass_rate_to_recirculate = additional_mass_rate_kg_per_hour
+                stage.rate_modifier.mass_rate_to_recirculate = max(
+                    mass_rate_kg_per_hour - minimum_mass_rate_kg_per_hour, 0.0
+                )
             return self.calculate_compressor_train(
                 constraints=constraints,
             )
@@ -1102,9 +1091,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         )
         # This mass rate is the mass rate to use as mass rate after asv for each stage,
         # thus the asv in each stage should be set to correspond to this mass rate
-        return _calculate_train_result_given_additional_mass_rate(
-            additional_mass_rate_kg_per_hour=(result_mass_rate - minimum_mass_rate_kg_per_hour)
-        )
+        return _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=result_mass_rate)
 
     def find_fixed_shaft_speed_given_constraints(
         self,
-- 
2.43.0


From 3ede6f9501ca74c7d44056504b95c53e503c4724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 40/83] fix: a compressor rate brought above the chart's
 maximum by recirculation is invalid

---
 .../chart/compressor/compressor_chart.py      | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/libecalc/domain/process/value_objects/chart/compressor/compressor_chart.py b/src/libecalc/domain/process/value_objects/chart/compressor/compressor_chart.py
index d6ff35c..c475bff 100644
--- a/src/libecalc/domain/process/value_objects/chart/compressor/compressor_chart.py
+++ b/src/libecalc/domain/process/value_objects/chart/compressor/compressor_chart.py
@@ -280,7 +280,18 @@ class CompressorChart(Chart):
                 else:
                     point_is_valid = False
             # second, decide ChartAreaFlag based on the original rate input
-            if actual_rate_m3_per_hour <= EPSILON:
+            # (but a rate recirculation brings above the maximum can not be handled by the compressor either)
+            if (
+                rate_to_use > maximum_flow_rate_for_speed + NUMERICAL_TOLERANCE
+                or actual_rate_m3_per_hour > maximum_flow_rate_for_speed
+            ):
+                chart_area_flag = (
+                    ChartAreaFlag.BELOW_MINIMUM_SPEED_AND_ABOVE_MAXIMUM_FLOW_RATE
+                    if speed_is_increased
+                    else ChartAreaFlag.ABOVE_MAXIMUM_FLOW_RATE
+                )
+                point_is_valid = False
+            elif actual_rate_m3_per_hour <= EPSILON:
                 chart_area_flag = ChartAreaFlag.NO_FLOW_RATE
             elif actual_rate_m3_per_hour < minimum_flow_rate_for_speed:
                 chart_area_flag = (
@@ -288,13 +299,6 @@ class CompressorChart(Chart):
                     if speed_is_increased
                     else ChartAreaFlag.BELOW_MINIMUM_FLOW_RATE
                 )
-            elif actual_rate_m3_per_hour > maximum_flow_rate_for_speed:
-                chart_area_flag = (
-                    ChartAreaFlag.BELOW_MINIMUM_SPEED_AND_ABOVE_MAXIMUM_FLOW_RATE
-                    if speed_is_increased
-                    else ChartAreaFlag.ABOVE_MAXIMUM_FLOW_RATE
-                )
-                point_is_valid = False
 
         return point_is_valid, chart_area_flag, speed_to_use, rate_to_use
 
-- 
2.43.0


From 919e1b0ab67cf1b40f7ce2a5a79713c6d14e24d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 41/83] fix: streams of a multiple streams train are taken in
 the order they enter and leave it

---
 .../yaml/mappers/consumer_function_mapper.py  | 32 ++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index 24aca89..cdaf64d 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -692,8 +692,29 @@ class CompressorModelMapper:
             maximum_power=model.maximum_power,
         ), fluid_model
 
+    def get_stream_order(self, reference: str) -> list[int]:
+        """
+        The order in which the streams of a compressor train with multiple streams enter and leave the train, as indices
+        in STREAMS: the stream entering the first stage, then stage by stage those taken out ahead of those mixed in.
+        """
+        model = self._reference_service.get_compressor_model(reference)
+        if isinstance(model, YamlCompressorWithTurbine):
+            return self.get_stream_order(model.compressor_model)
+        assert isinstance(model, YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures)
+        index = {stream.name: i for i, stream in enumerate(model.streams)}
+        order: list[int] = []
+        for stage_index, stage_config in enumerate(model.stages):
+            streams = sorted({index[name] for name in (stage_config.stream or []) if name in index} - set(order))
+            ingoing = [i for i in streams if isinstance(model.streams[i], YamlMultipleStreamsStreamIngoing)]
+            outgoing = [i for i in streams if isinstance(model.streams[i], YamlMultipleStreamsStreamOutgoing)]
+            if stage_index == 0:
+                order += ingoing[:1]
+                ingoing = ingoing[1:]
+            order += outgoing + ingoing
+        return order + [i for i in range(len(model.streams)) if i not in order]
+
     def _create_variable_speed_compressor_train_multiple_streams_and_pressures(
-        self, model: YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures
+        self, model: YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures, reference: str
     ) -> tuple[CompressorTrainCommonShaft, list[FluidModel | None]]:
         stream_references = {stream.name for stream in model.streams}
 
@@ -761,7 +782,7 @@ class CompressorModelMapper:
             self._get_fluid_model(stream_config.fluid_model)
             if isinstance(stream_config, YamlMultipleStreamsStreamIngoing)
             else None
-            for stream_config in model.streams
+            for stream_config in (model.streams[i] for i in self.get_stream_order(reference))
         ]
 
         if not any(fluid_models):
@@ -838,7 +859,7 @@ class CompressorModelMapper:
             elif isinstance(model, YamlCompressorWithTurbine):
                 return self._create_compressor_with_turbine(model, operational_data=operational_data)
             elif isinstance(model, YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures):
-                return self._create_variable_speed_compressor_train_multiple_streams_and_pressures(model)
+                return self._create_variable_speed_compressor_train_multiple_streams_and_pressures(model, reference)
             elif isinstance(model, YamlCompressorTabularModel):
                 return self._create_compressor_sampled(model, reference), None
             else:
@@ -1193,7 +1214,10 @@ class ConsumerFunctionMapper:
                 regularity=regularity,
                 consumption_rate_type=RateType.CALENDAR_DAY,
             )
-            for rate_expression in model.rate_per_stream
+            for rate_expression in (
+                model.rate_per_stream[i]
+                for i in self._compressor_model_mapper.get_stream_order(model.compressor_train_model)
+            )
         ]
 
         rates_per_stream_values = [rates.get_stream_day_values() for rates in rates_per_stream]
-- 
2.43.0


From fce28f808bcc77ec70b7391a0dea5d03e8a7f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 42/83] fix: interstage pressure: control the pressure of a
 part whenever it is above its target

---
 .../train/compressor_train_common_shaft.py    | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index d70eb21..a5fb0ee 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -1,4 +1,3 @@
-import math
 from copy import deepcopy
 from functools import partial
 from typing import Self
@@ -1362,15 +1361,17 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             upper_bound_for_speed=self.maximum_speed,  # original, complete compressor train
         )
 
-        if math.isclose(shaft_speed_first_part, self.minimum_speed, rel_tol=EPSILON):
-            compressor_train_results_first_part_with_optimal_speed_result = (
-                compressor_train_first_part.evaluate_with_pressure_control_given_constraints(
-                    constraints=constraints_first_part,
-                )
+        compressor_train_results_first_part_with_optimal_speed_result = (
+            compressor_train_first_part.calculate_compressor_train(
+                constraints=constraints_first_part,
             )
-        else:
+        )
+        if (
+            compressor_train_results_first_part_with_optimal_speed_result.target_pressure_status
+            is TargetPressureStatus.ABOVE_TARGET_DISCHARGE_PRESSURE
+        ):
             compressor_train_results_first_part_with_optimal_speed_result = (
-                compressor_train_first_part.calculate_compressor_train(
+                compressor_train_first_part.evaluate_with_pressure_control_given_constraints(
                     constraints=constraints_first_part,
                 )
             )
@@ -1392,15 +1393,17 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             upper_bound_for_speed=self.maximum_speed,
         )
 
-        if math.isclose(shaft_speed_last_part, self.minimum_speed, rel_tol=EPSILON):
-            compressor_train_results_last_part_with_optimal_speed_result = (
-                compressor_train_last_part.evaluate_with_pressure_control_given_constraints(
-                    constraints=constraints_last_part,
-                )
+        compressor_train_results_last_part_with_optimal_speed_result = (
+            compressor_train_last_part.calculate_compressor_train(
+                constraints=constraints_last_part,
             )
-        else:
+        )
+        if (
+            compressor_train_results_last_part_with_optimal_speed_result.target_pressure_status
+            is TargetPressureStatus.ABOVE_TARGET_DISCHARGE_PRESSURE
+        ):
             compressor_train_results_last_part_with_optimal_speed_result = (
-                compressor_train_last_part.calculate_compressor_train(
+                compressor_train_last_part.evaluate_with_pressure_control_given_constraints(
                     constraints=constraints_last_part,
                 )
             )
-- 
2.43.0


From 9e2edfa83ef62a6c95d01e7929fa8d8812902b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 43/83] fix: interstage pressure: the last part takes in what
 leaves the first part

---
 .../compressor/core/train/compressor_train_common_shaft.py  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index a5fb0ee..e7666ca 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -1385,6 +1385,12 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 -1
             ].outlet_stream.fluid_model.eos_model,
         )
+        # What enters the last part is what leaves the first part, with another composition and less the liquid removed
+        constraints_last_part = constraints_last_part.create_conditions_with_new_input(
+            new_rate=compressor_train_results_first_part_with_optimal_speed_result.stage_results[
+                -1
+            ].outlet_stream.standard_rate_sm3_per_day
+        )
 
         # Get the speed found for the last part - will be used to compare with the first part
         shaft_speed_last_part = compressor_train_last_part.find_fixed_shaft_speed_given_constraints(
-- 
2.43.0


From 3179ee745b43374081d0ed38b43ae7e8c723a681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 44/83] fix: interstage pressure: a pressure choked down to the
 target is met

---
 .../core/train/compressor_train_common_shaft.py           | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index e7666ca..3d00476 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -1466,6 +1466,14 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             results=train_result,
         )
 
+        if (
+            target_pressure_status is TargetPressureStatus.ABOVE_TARGET_INTERMEDIATE_PRESSURE
+            and compressor_train_results_to_return_first_part.target_pressure_status
+            is TargetPressureStatus.TARGET_PRESSURES_MET
+        ):
+            # The pressure out of the last stage of the first part is choked down to the intermediate pressure
+            target_pressure_status = TargetPressureStatus.TARGET_PRESSURES_MET
+
         train_result.target_pressure_status = target_pressure_status
 
         return train_result
-- 
2.43.0


From b00e52ac1ea7638bdc96649645a07c2eeaaf067d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 45/83] fix: maximum rate does not depend on recirculation left
 from the previous time step

---
 .../compressor/core/train/compressor_train_common_shaft.py       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 3d00476..f4390d9 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -330,6 +330,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
 
         """
         assert constraints.suction_pressure is not None, "suction_pressure is required for maximum rate calculation"
+        self.reset_rate_modifiers()
         fluid_model = self.fluid_model
         inlet_density = self._fluid_service.create_fluid(
             fluid_model=fluid_model,
-- 
2.43.0


From 6a3f9204664cfdb22751d912aacf1baed1c9ff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 46/83] fix: maximum rate at stonewall is the rate into the
 train, including liquid removed

---
 .../compressor/core/train/compressor_train_common_shaft.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index f4390d9..b47fa4b 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -549,7 +549,10 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 self.shaft.set_speed(result_speed)
                 compressor_train_result = _calculate_train_result_given_speed_at_stone_wall(speed=result_speed)
 
-                rate_to_return = compressor_train_result.mass_rate_kg_per_hour * (1 - RATE_CALCULATION_TOLERANCE)
+                # the rate into the train, including liquid removed ahead of the first stage
+                rate_to_return = compressor_train_result.inlet_stream.mass_rate_kg_per_h * (
+                    1 - RATE_CALCULATION_TOLERANCE
+                )
 
             # Solution scenario 5. Too high pressure even at min speed and max flow rate.
             elif (
-- 
2.43.0


From e6a668437ac506be043eaaf8213864bfe568a53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 47/83] fix: power-limited maximum rate is searched from zero

---
 .../compressor/core/train/compressor_train_common_shaft.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index b47fa4b..e1617dc 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -594,7 +594,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 result = self._fluid_service.mass_rate_to_standard_rate(
                     fluid_model,
                     find_root(
-                        lower_bound=result_with_minimum_rate.stage_results[0].mass_rate_asv_corrected_kg_per_hour,
+                        lower_bound=EPSILON,
                         upper_bound=rate_to_return,
                         func=lambda x: (
                             self.evaluate_given_constraints(
-- 
2.43.0


From 09d6930948ddedc40d8f0bb08c7051df8e2bd6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 48/83] fix: maximum rate respects the maximum discharge
 pressure with downstream choke

---
 .../core/train/compressor_train_common_shaft.py     | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index e1617dc..765769d 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -499,11 +499,18 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
 
         # Solution 3: If solution not found along max speed curve, and pressure control is downstream choke, we should
         # run at max_mass_rate, but using the defined pressure control.
-        elif self.pressure_control == FixedSpeedPressureControl.DOWNSTREAM_CHOKE:
+        elif self.pressure_control == FixedSpeedPressureControl.DOWNSTREAM_CHOKE and (
+            self.maximum_discharge_pressure is None
+            or result_max_mass_rate_at_max_speed.discharge_pressure <= self.maximum_discharge_pressure
+        ):
             rate_to_return = max_mass_rate_at_max_speed * (1 - RATE_CALCULATION_TOLERANCE)
 
-        # if pressure control is upstream choke, we find the new maximum rate with the reduced inlet pressure
-        elif self.pressure_control == FixedSpeedPressureControl.UPSTREAM_CHOKE:
+        # if pressure control is upstream choke (also applied to keep below the maximum discharge pressure with
+        # downstream choke), we find the new maximum rate with the reduced inlet pressure
+        elif self.pressure_control in (
+            FixedSpeedPressureControl.UPSTREAM_CHOKE,
+            FixedSpeedPressureControl.DOWNSTREAM_CHOKE,
+        ):
             rate_to_return = maximize_x_given_boolean_condition_function(
                 x_min=0,
                 x_max=max_mass_rate_at_max_speed_first_stage,
-- 
2.43.0


From 966de8b85a059ea6a847e09420521af467da990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 49/83] fix: maximum rate of single speed trains: no root
 search between equal speeds

---
 .../train/compressor_train_common_shaft.py     | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 765769d..9525478 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -545,13 +545,17 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             ):
                 # iterate along stone wall until target discharge pressure is reached
                 target_discharge_pressure = constraints.discharge_pressure
-                result_speed = find_root(
-                    lower_bound=self.minimum_speed,
-                    upper_bound=self.maximum_speed,
-                    func=lambda x: (
-                        _calculate_train_result_given_speed_at_stone_wall(speed=x).discharge_pressure
-                        - target_discharge_pressure
-                    ),
+                result_speed = (
+                    find_root(
+                        lower_bound=self.minimum_speed,
+                        upper_bound=self.maximum_speed,
+                        func=lambda x: (
+                            _calculate_train_result_given_speed_at_stone_wall(speed=x).discharge_pressure
+                            - target_discharge_pressure
+                        ),
+                    )
+                    if self.minimum_speed < self.maximum_speed
+                    else self.maximum_speed
                 )
                 self.shaft.set_speed(result_speed)
                 compressor_train_result = _calculate_train_result_given_speed_at_stone_wall(speed=result_speed)
-- 
2.43.0


From 85e28b476b97a29b520421dd4cacce49a1400fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 50/83] fix: recirculation limit of a stage is relative to the
 mass that reaches the compressor

---
 src/libecalc/domain/process/compressor/core/train/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/stage.py b/src/libecalc/domain/process/compressor/core/train/stage.py
index 58eb21b..20c640e 100644
--- a/src/libecalc/domain/process/compressor/core/train/stage.py
+++ b/src/libecalc/domain/process/compressor/core/train/stage.py
@@ -315,7 +315,7 @@ class CompressorTrainStage:
 
         max_recirculation = max(
             maximum_rate * float(result_no_recirculation.inlet_stream.density)
-            - inlet_stream_stage.mass_rate_kg_per_h
+            - result_no_recirculation.inlet_stream.mass_rate_kg_per_h
             - EPSILON,
             0,
         )
-- 
2.43.0


From 5d7ca7c104ac020e4653368d8ee76171ee233be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:59 +0000
Subject: [PATCH 51/83] fix: polytropic efficiency of a generic chart may be
 given in percent

---
 .../yaml/yaml_types/models/yaml_compressor_chart.py    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_chart.py b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_chart.py
index b87cfd0..ad09a5e 100644
--- a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_chart.py
+++ b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_chart.py
@@ -1,7 +1,7 @@
 import enum
 from typing import Annotated, Literal, Union
 
-from pydantic import Field
+from pydantic import Field, model_validator
 
 from libecalc.presentation.yaml.yaml_types import YamlBase
 from libecalc.presentation.yaml.yaml_types.models.model_reference import ModelName
@@ -125,7 +125,6 @@ class YamlGenericFromDesignPointChart(YamlBase):
     polytropic_efficiency: float = Field(
         ...,
         gt=0,
-        le=1,
         description="Polytropic efficiency for compressor chart",
         title="POLYTROPIC_EFFICIENCY",
     )
@@ -133,6 +132,13 @@ class YamlGenericFromDesignPointChart(YamlBase):
     design_head: float = Field(..., ge=0, description="Design head for generic compressor chart", title="DESIGN_HEAD")
     units: YamlUnits
 
+    @model_validator(mode="after")
+    def check_polytropic_efficiency(self):
+        maximum = 100 if self.units.efficiency == YamlEfficiencyUnits.PERCENTAGE else 1
+        if self.polytropic_efficiency > maximum:
+            raise ValueError(f"POLYTROPIC_EFFICIENCY should be less than or equal to {maximum}")
+        return self
+
 
 YamlCompressorChart = Annotated[
     Union[YamlSingleSpeedChart, YamlVariableSpeedChart, YamlGenericFromDesignPointChart, YamlGenericFromInputChart],
-- 
2.43.0


From ab3c68ffcae4e86d00f8468c53dd5b31ab4eda44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:59 +0000
Subject: [PATCH 52/83] fix: heads of a chart made from input are those the
 evaluation finds for each operating point

---
 .../charts/generic_from_input_chart_data.py   | 23 ++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/charts/generic_from_input_chart_data.py b/src/libecalc/presentation/yaml/mappers/charts/generic_from_input_chart_data.py
index 51319da..d4ee39e 100644
--- a/src/libecalc/presentation/yaml/mappers/charts/generic_from_input_chart_data.py
+++ b/src/libecalc/presentation/yaml/mappers/charts/generic_from_input_chart_data.py
@@ -48,25 +48,22 @@ class GenericFromInputChartData(ChartData):
         def efficiency_as_function_of_rate_and_head(rates, heads):
             return np.full_like(rates, fill_value=self._polytropic_efficiency, dtype=float)
 
-        polytropic_enthalpy_change_joule_per_kg, polytropic_efficiency = calculate_enthalpy_change_head_iteration(
-            inlet_streams=inlet_streams,
-            outlet_pressure=np.asarray(self._outlet_pressure),
-            polytropic_efficiency_vs_rate_and_head_function=efficiency_as_function_of_rate_and_head,
-            fluid_service=self._fluid_service,
-        )
+        # One operating point at a time, as when the train is evaluated, to have exactly those heads inside the chart
+        heads_list = []
+        for inlet_stream, outlet_pressure in zip(inlet_streams, self._outlet_pressure):
+            enthalpy_change_joule_per_kg, polytropic_efficiency = calculate_enthalpy_change_head_iteration(
+                inlet_streams=inlet_stream,
+                outlet_pressure=outlet_pressure,
+                polytropic_efficiency_vs_rate_and_head_function=efficiency_as_function_of_rate_and_head,
+                fluid_service=self._fluid_service,
+            )
+            heads_list.append(float(enthalpy_change_joule_per_kg * polytropic_efficiency))
 
-        head_joule_per_kg = polytropic_enthalpy_change_joule_per_kg * polytropic_efficiency
         inlet_actual_rate_m3_per_hour = np.asarray([stream.volumetric_rate_m3_per_hour for stream in inlet_streams])
 
         # Convert numpy arrays to lists for proper type annotation
         actual_rates_list: list[float] = inlet_actual_rate_m3_per_hour.astype(float).tolist()
 
-        # Handle union type for head_joule_per_kg
-        if isinstance(head_joule_per_kg, np.ndarray):
-            heads_list: list[float] = head_joule_per_kg.astype(float).tolist()
-        else:
-            heads_list = [float(head_joule_per_kg)]
-
         return CompressorChartCreator.from_rate_and_head_values(
             actual_volume_rates_m3_per_hour=actual_rates_list,
             heads_joule_per_kg=heads_list,
-- 
2.43.0


From 91038927485dc489ce986946da0cacfe57866130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:59 +0000
Subject: [PATCH 53/83] fix: the point with the highest head is inside the
 generic chart made from it

---
 .../process/value_objects/chart/compressor/chart_creator.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/value_objects/chart/compressor/chart_creator.py b/src/libecalc/domain/process/value_objects/chart/compressor/chart_creator.py
index 2bdf860..7e2ec63 100644
--- a/src/libecalc/domain/process/value_objects/chart/compressor/chart_creator.py
+++ b/src/libecalc/domain/process/value_objects/chart/compressor/chart_creator.py
@@ -73,7 +73,7 @@ class CompressorChartCreator:
 
         # Maximum values from input
         maximum_actual_rate = np.max(actual_volume_rates_m3_per_hour)
-        maximum_head_value = np.max(heads_joule_per_kg)
+        maximum_head_value = np.max(heads_joule_per_kg) * (1 + 1e-9)  # not to be above the chart by rounding alone
 
         # Values to scale input with
         scaling_rate_to_unified = np.divide(maximum_actual_rate, maximum_rate_on_maximum_speed_curve_unified)
-- 
2.43.0


From e581744f02fd9c92f25ae4601457c5ee7a477098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:00 +0000
Subject: [PATCH 54/83] fix: a simplified train with nothing to compress has
 one stage, not none

---
 .../presentation/yaml/mappers/simplified_train_mapping_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py b/src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py
index 0a35293..ec59b2c 100644
--- a/src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py
+++ b/src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py
@@ -78,4 +78,4 @@ def calculate_number_of_stages(
     maximum_train_pressure_ratio = max(pressure_ratios)
 
     x = math.log(maximum_train_pressure_ratio) / math.log(maximum_pressure_ratio_per_stage)
-    return math.ceil(x)
+    return max(math.ceil(x), 1)
-- 
2.43.0


From 5e06de0a45491489cbeeee93a79e1118dee907b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:53 +0000
Subject: [PATCH 55/83] fix: names of consumers with illegal characters are
 refused in the validation

---
 .../yaml_types/components/legacy/yaml_electricity_consumer.py  | 3 ++-
 .../yaml/yaml_types/components/legacy/yaml_fuel_consumer.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/components/legacy/yaml_electricity_consumer.py b/src/libecalc/presentation/yaml/yaml_types/components/legacy/yaml_electricity_consumer.py
index 3df450d..18c4faf 100644
--- a/src/libecalc/presentation/yaml/yaml_types/components/legacy/yaml_electricity_consumer.py
+++ b/src/libecalc/presentation/yaml/yaml_types/components/legacy/yaml_electricity_consumer.py
@@ -2,6 +2,7 @@ from typing import Literal
 
 from pydantic import ConfigDict, Field, model_validator
 
+from libecalc.dto.utils.validators import ComponentNameStr
 from libecalc.presentation.yaml.consumer_category import ConsumerUserDefinedCategoryType
 from libecalc.presentation.yaml.energy_model_validation import validate_energy_usage_models
 from libecalc.presentation.yaml.yaml_types import YamlBase
@@ -21,7 +22,7 @@ class YamlElectricityConsumer(YamlBase):
         exclude=True,
     )
 
-    name: str = Field(
+    name: ComponentNameStr = Field(
         ...,
         title="NAME",
         description="Name of the consumer.\n\n$ECALC_DOCS_KEYWORDS_URL/NAME",
diff --git a/src/libecalc/presentation/yaml/yaml_types/components/legacy/yaml_fuel_consumer.py b/src/libecalc/presentation/yaml/yaml_types/components/legacy/yaml_fuel_consumer.py
index 2327231..b6109e9 100644
--- a/src/libecalc/presentation/yaml/yaml_types/components/legacy/yaml_fuel_consumer.py
+++ b/src/libecalc/presentation/yaml/yaml_types/components/legacy/yaml_fuel_consumer.py
@@ -2,6 +2,7 @@ from typing import Literal
 
 from pydantic import ConfigDict, Field, model_validator
 
+from libecalc.dto.utils.validators import ComponentNameStr
 from libecalc.presentation.yaml.consumer_category import ConsumerUserDefinedCategoryType
 from libecalc.presentation.yaml.energy_model_validation import (
     validate_energy_usage_models,
@@ -27,7 +28,7 @@ class YamlFuelConsumer(YamlBase):
         exclude=True,
     )
 
-    name: str = Field(
+    name: ComponentNameStr = Field(
         ...,
         title="NAME",
         description="Name of the consumer.\n\n$ECALC_DOCS_KEYWORDS_URL/NAME",
-- 
2.43.0


From 07ae5969823ad56cadb9f5dfe264364a5c6f4ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 56/83] fix: START and END that are no dates are refused as a
 model error

---
 .../yaml/yaml_models/pyyaml_yaml_model.py     | 24 +++++++++++++++----
 .../yaml/yaml_types/yaml_default_datetime.py  |  6 ++---
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
index 8fa31b6..0530553 100644
--- a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
+++ b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
@@ -535,15 +535,31 @@ class PyYamlYamlModel(YamlValidator, YamlConfiguration):
                 pass
         return pump_process_simulations
 
+    def _get_datetime_or_none(self, keyword: str) -> datetime.datetime | None:
+        value = self._internal_datamodel.get(keyword)
+        if value is None:
+            return None
+        try:
+            return TypeAdapter(YamlDefaultDatetime).validate_python(value)
+        except PydanticValidationError as e:
+            raise ModelValidationException(
+                errors=[
+                    ModelValidationError(
+                        message=error["msg"],
+                        location=Location(keys=(keyword,)),
+                        file_context=self.get_file_context((keyword,)),
+                    )
+                    for error in custom_errors(e)
+                ]
+            ) from e
+
     @property
     def start(self) -> datetime.datetime | None:
-        start_value = self._internal_datamodel.get(EcalcYamlKeywords.start)
-        return TypeAdapter(YamlDefaultDatetime).validate_python(start_value) if start_value is not None else None
+        return self._get_datetime_or_none(EcalcYamlKeywords.start)
 
     @property
     def end(self) -> datetime.datetime | None:
-        end_value = self._internal_datamodel.get(EcalcYamlKeywords.end)
-        return TypeAdapter(YamlDefaultDatetime).validate_python(end_value) if end_value is not None else None
+        return self._get_datetime_or_none(EcalcYamlKeywords.end)
 
     @property
     def dates(self) -> set[datetime.datetime]:
diff --git a/src/libecalc/presentation/yaml/yaml_types/yaml_default_datetime.py b/src/libecalc/presentation/yaml/yaml_types/yaml_default_datetime.py
index 5a3820a..caff7ce 100644
--- a/src/libecalc/presentation/yaml/yaml_types/yaml_default_datetime.py
+++ b/src/libecalc/presentation/yaml/yaml_types/yaml_default_datetime.py
@@ -1,7 +1,7 @@
-from datetime import date, datetime
+from datetime import date
 from typing import Annotated, Any
 
-from pydantic import BeforeValidator, WithJsonSchema
+from pydantic import BeforeValidator, NaiveDatetime, WithJsonSchema
 
 from libecalc.common.time_utils import convert_date_to_datetime
 
@@ -13,7 +13,7 @@ def convert_str_or_date_to_datetime(x: Any):
 
 
 YamlDefaultDatetime = Annotated[
-    datetime,
+    NaiveDatetime,
     BeforeValidator(convert_str_or_date_to_datetime),
     WithJsonSchema({"type": "string", "format": "date"}),  # Previously just a str in the schema, is datetime needed?
 ]
-- 
2.43.0


From 0caba34c537a898ffaeb5b562db5b0cfb4d8e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:54 +0000
Subject: [PATCH 57/83] fix: items that are no mappings and files that are no
 names are refused as a model error

---
 .../yaml/yaml_models/pyyaml_yaml_model.py          | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
index 0530553..e32fad8 100644
--- a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
+++ b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
@@ -305,21 +305,25 @@ class PyYamlYamlModel(YamlValidator, YamlConfiguration):
     def _get_yaml_list_or_empty(self, keyword: str) -> list:
         return self._get_yaml_data_or_default(keyword, list)
 
+    def _get_yaml_dicts_or_empty(self, keyword: str) -> list[dict]:
+        return [item for item in self._get_yaml_list_or_empty(keyword) if isinstance(item, dict)]
+
     def _get_yaml_dict_or_empty(self, keyword: str) -> dict:
         return self._get_yaml_data_or_default(keyword, dict)
 
     @property
     def facility_resource_names(self) -> list[str]:
-        facility_input_data = self._get_yaml_list_or_empty(EcalcYamlKeywords.facility_inputs)
+        # Anything not being a dict, or a file not being a string, is left for the validation
+        facility_input_data = self._get_yaml_dicts_or_empty(EcalcYamlKeywords.facility_inputs)
         model_curves_data = [
             model.get(model_curves)
-            for model in self._get_yaml_list_or_empty(EcalcYamlKeywords.models)
+            for model in self._get_yaml_dicts_or_empty(EcalcYamlKeywords.models)
             for model_curves in [EcalcYamlKeywords.consumer_chart_curves, EcalcYamlKeywords.consumer_chart_curve]
             if isinstance(model.get(model_curves), dict)
         ]
         resource_data = facility_input_data + model_curves_data
         resource_names: list[str] = [
-            data.get(EcalcYamlKeywords.file) for data in resource_data if data.get(EcalcYamlKeywords.file) is not None
+            data.get(EcalcYamlKeywords.file) for data in resource_data if isinstance(data.get(EcalcYamlKeywords.file), str)
         ]
 
         # Pick up FILE references nested in the new YAML sections (DEFINITIONS.PROCESS_UNITS, PROCESS_PIPELINES, ...).
@@ -338,9 +342,9 @@ class PyYamlYamlModel(YamlValidator, YamlConfiguration):
     @property
     def timeseries_resource_names(self) -> list[str]:
         timeseries_resources = []
-        for resource in self._get_yaml_list_or_empty(EcalcYamlKeywords.time_series):
+        for resource in self._get_yaml_dicts_or_empty(EcalcYamlKeywords.time_series):
             resource_name = resource.get(EcalcYamlKeywords.file)
-            if resource_name is not None:
+            if isinstance(resource_name, str):
                 timeseries_resources.append(resource_name)
         return timeseries_resources
 
-- 
2.43.0


From 0b530f82f75a71b138fbbdfb5f6c582be2cbee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:23 +0000
Subject: [PATCH 58/83] fix: a column with text in a compressor table is
 refused, not left out

---
 src/libecalc/presentation/yaml/mappers/facility_input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/facility_input.py b/src/libecalc/presentation/yaml/mappers/facility_input.py
index 88157cc..0a26ab4 100644
--- a/src/libecalc/presentation/yaml/mappers/facility_input.py
+++ b/src/libecalc/presentation/yaml/mappers/facility_input.py
@@ -1,4 +1,4 @@
-from libecalc.common.errors.exceptions import InvalidResourceException
+from libecalc.common.errors.exceptions import HeaderNotFoundException
 from libecalc.common.units import Unit
 from libecalc.domain.infrastructure.energy_components.generator_set import GeneratorSetModel
 from libecalc.domain.process.pump.pump import PumpModel
@@ -14,7 +14,7 @@ from libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model im
 def _get_float_column_or_none(resource: Resource, header: str) -> list[float] | None:
     try:
         return resource.get_float_column(header)
-    except InvalidResourceException:
+    except HeaderNotFoundException:
         return None
 
 
-- 
2.43.0


From 36bd5ff880abe7efaac09070e687e3afe40765d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:51 +0000
Subject: [PATCH 59/83] fix: errors in a table name the facility input it
 belongs to

---
 src/libecalc/presentation/yaml/mappers/component_mapper.py    | 2 +-
 .../presentation/yaml/mappers/consumer_function_mapper.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/component_mapper.py b/src/libecalc/presentation/yaml/mappers/component_mapper.py
index 5110acc..00bc7cc 100644
--- a/src/libecalc/presentation/yaml/mappers/component_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/component_mapper.py
@@ -261,7 +261,7 @@ class EcalcModelMapper:
                 name=model.name,
                 resource=resource,
             )
-        except EcalcValidationException as e:
+        except (EcalcValidationException, InvalidResourceException) as e:
             raise ModelValidationException(
                 errors=[self._create_reference_error(message=str(e), reference=reference)]
             ) from e
diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index cdaf64d..a0a73e1 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -864,7 +864,7 @@ class CompressorModelMapper:
                 return self._create_compressor_sampled(model, reference), None
             else:
                 assert_never(model)
-        except EcalcValidationException as e:
+        except (EcalcValidationException, InvalidResourceException) as e:
             raise ModelValidationException(errors=[self._create_error(str(e), reference=reference)]) from e
 
 
@@ -917,7 +917,7 @@ class TabularModelMapper:
                 headers=resource_headers,
                 data=resource_data,
             )
-        except EcalcValidationException as e:
+        except (EcalcValidationException, InvalidResourceException) as e:
             raise ModelValidationException(errors=[self._create_error(str(e), reference=reference)]) from e
 
 
-- 
2.43.0


From f27876e1a70057b7a4dbdbd4736179742328b254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:25 +0000
Subject: [PATCH 60/83] fix: a missing column in a variable speed chart is
 refused as a model error

---
 .../yaml/mappers/charts/user_defined_chart_data.py        | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py b/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
index e904d41..813b652 100644
--- a/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
+++ b/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
@@ -91,6 +91,14 @@ class UserDefinedChartData(ChartData):
             if "SPEED" not in resource_headers:
                 raise InvalidColumnException(message="Resource is missing SPEED header!", header="SPEED")
 
+            for header in (
+                EcalcYamlKeywords.consumer_chart_rate,
+                EcalcYamlKeywords.consumer_chart_head,
+                EcalcYamlKeywords.consumer_chart_efficiency,
+            ):
+                if header not in resource_headers:
+                    raise HeaderNotFoundException(header=header)
+
             resource_data = []
             for header in resource_headers:
                 column = resource.get_float_column(header)
-- 
2.43.0


From af7227dc924ad856459bec0b500373371518fd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:15 +0000
Subject: [PATCH 61/83] fix: a pump without rate or pressures is refused as a
 model error

---
 .../energy_usage_model/yaml_energy_usage_model_pump.py      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_pump.py b/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_pump.py
index 0cde87a..9ab6843 100644
--- a/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_pump.py
+++ b/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_pump.py
@@ -26,17 +26,17 @@ class YamlEnergyUsageModelPump(EnergyUsageModelCommon):
         alias="ENERGYFUNCTION",
     )
     rate: YamlExpressionType = Field(
-        None,
+        ...,
         title="RATE",
         description="Fluid rate through the pump in Sm3/day \n\n$ECALC_DOCS_KEYWORDS_URL/RATE",
     )
     suction_pressure: YamlExpressionType = Field(
-        None,
+        ...,
         title="SUCTION_PRESSURE",
         description="Fluid pressure at pump inlet in bars \n\n$ECALC_DOCS_KEYWORDS_URL/SUCTION_PRESSURE",
     )
     discharge_pressure: YamlExpressionType = Field(
-        None,
+        ...,
         title="DISCHARGE_PRESSURE",
         description="Fluid pressure at pump outlet in bars \n\n$ECALC_DOCS_KEYWORDS_URL/DISCHARGE_PRESSURE",
     )
-- 
2.43.0


From 856d9d44e4a4a757820fa176137882ce2eaa1f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:19 +0000
Subject: [PATCH 62/83] fix: consumer systems without rates, densities or
 operational settings are refused as a model error

---
 ...yaml_energy_usage_model_consumer_system.py | 33 +++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py b/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
index 8c5bac0..14a572f 100644
--- a/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
+++ b/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
@@ -69,6 +69,16 @@ class YamlCompressorSystemOperationalSetting(YamlBase):
         description="Set suction pressure equal for all consumers in a consumer system operational setting. \n\n$ECALC_DOCS_KEYWORDS_URL/SUCTION_PRESSURE",
     )
 
+    @model_validator(mode="after")
+    def ensure_mutually_exclusive_rates(self):
+        if self.rates is None and self.rate_fractions is None:
+            raise ValueError("One of RATES or RATE_FRACTIONS must be specified.")
+
+        if self.rates is not None and self.rate_fractions is not None:
+            raise ValueError("Only one of RATES or RATE_FRACTIONS may be specified.")
+
+        return self
+
     @model_validator(mode="after")
     def ensure_mutually_exclusive_discharge_pressures(self):
         if self.discharge_pressure is None and self.discharge_pressures is None:
@@ -134,9 +144,9 @@ class YamlEnergyUsageModelCompressorSystem(EnergyUsageModelCommon):
             return self
 
         for compressor in self.compressors:
-            compressor_model = info.context["model_types"][compressor.compressor_model]
+            compressor_model = info.context["model_types"].get(compressor.compressor_model)
             if isinstance(compressor_model, YamlCompressorWithTurbine):
-                compressor_model = info.context["model_types"][compressor_model.compressor_model]
+                compressor_model = info.context["model_types"].get(compressor_model.compressor_model)
             train = getattr(compressor_model, "compressor_train", None)
             if not train:
                 continue
@@ -169,6 +179,9 @@ class YamlEnergyUsageModelCompressorSystem(EnergyUsageModelCommon):
         """
         num_compressors = len(self.compressors)
 
+        if len(self.operational_settings) == 0:
+            raise ValueError("OPERATIONAL_SETTINGS: At least one operational setting must be specified.")
+
         for i, setting in enumerate(self.operational_settings):
             setting_num = i + 1  # 1-indexed for user-facing error messages
 
@@ -183,6 +196,10 @@ class YamlEnergyUsageModelCompressorSystem(EnergyUsageModelCommon):
 
             # Validate rate_fractions (if using fractions)
             if setting.rate_fractions is not None:
+                if self.total_system_rate is None:
+                    raise ValueError(
+                        f"Operational setting {setting_num}: TOTAL_SYSTEM_RATE must be specified when using RATE_FRACTIONS."
+                    )
                 if len(setting.rate_fractions) != num_compressors:
                     raise ValueError(
                         f"Operational setting {setting_num}: RATE_FRACTIONS has {len(setting.rate_fractions)} values "
@@ -265,6 +282,9 @@ class YamlEnergyUsageModelPumpSystem(EnergyUsageModelCommon):
         """
         num_pumps = len(self.pumps)
 
+        if len(self.operational_settings) == 0:
+            raise ValueError("OPERATIONAL_SETTINGS: At least one operational setting must be specified.")
+
         for i, setting in enumerate(self.operational_settings):
             setting_num = i + 1  # 1-indexed for user-facing error messages
 
@@ -279,6 +299,10 @@ class YamlEnergyUsageModelPumpSystem(EnergyUsageModelCommon):
 
             # Validate rate_fractions (if using fractions)
             if setting.rate_fractions is not None:
+                if self.total_system_rate is None:
+                    raise ValueError(
+                        f"Operational setting {setting_num}: TOTAL_SYSTEM_RATE must be specified when using RATE_FRACTIONS."
+                    )
                 if len(setting.rate_fractions) != num_pumps:
                     raise ValueError(
                         f"Operational setting {setting_num}: RATE_FRACTIONS has {len(setting.rate_fractions)} values "
@@ -302,6 +326,11 @@ class YamlEnergyUsageModelPumpSystem(EnergyUsageModelCommon):
                     )
 
             # Validate fluid_densities (pump-specific)
+            if not setting.fluid_densities and self.fluid_density is None:
+                raise ValueError(
+                    f"Operational setting {setting_num}: One of FLUID_DENSITY or FLUID_DENSITIES must be specified."
+                )
+
             if setting.fluid_densities is not None:
                 if len(setting.fluid_densities) != num_pumps:
                     raise ValueError(
-- 
2.43.0


From 2c4865a9005ffc17321623e72ac5affca681c559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:30 +0000
Subject: [PATCH 63/83] fix: variables that are not those of the table are
 refused as a model error

---
 .../presentation/yaml/mappers/consumer_function_mapper.py  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index a0a73e1..4dc257d 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -1079,6 +1079,13 @@ class ConsumerFunctionMapper:
         if consumes != energy_usage_type_as_consumption_type:
             raise InvalidConsumptionType(actual=energy_usage_type_as_consumption_type, expected=consumes)
 
+        variable_names = [variable.name for variable in model.variables]
+        if sorted(variable_names) != sorted(energy_model.required_variables):
+            raise ValueError(
+                f"VARIABLES must be the variables in '{model.energy_function}', "
+                f"i.e. {', '.join(energy_model.required_variables)}. Got {', '.join(variable_names)}"
+            )
+
         power_loss_factor_expression = TimeSeriesExpression(
             expression=model.power_loss_factor, expression_evaluator=period_evaluator
         )
-- 
2.43.0


From 75b6b30ef6075229514730036282482acc0bcd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:28 +0000
Subject: [PATCH 64/83] fix: a compressor table with repeated values is refused
 as a model error

---
 .../compressor/core/sampled/compressor_model_sampled_1d.py   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_1d.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_1d.py
index 42269dc..56872ae 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_1d.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_1d.py
@@ -5,6 +5,7 @@ import pandas as pd
 from numpy.typing import NDArray
 from scipy.interpolate import interp1d
 
+from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
 from libecalc.common.errors.exceptions import IllegalStateException
 from libecalc.common.logger import logger
 from libecalc.domain.process.compressor.core.sampled.constants import (
@@ -103,10 +104,10 @@ class CompressorModelSampled1D:
             msg = (
                 f"1D compressor sampled data require unique variable input values. "
                 f"I got non-unique {self._x_column_name} values "
-                f"{', '.join(duplicates)}"
+                f"{', '.join(str(duplicate) for duplicate in duplicates)}"
             )
             logger.error(msg)
-            raise IllegalStateException(msg)
+            raise EcalcValidationException(message=msg)
 
         self._energy_function = interp1d(
             x=sorted_sampled_data[self._x_column_name],
-- 
2.43.0


From 4c71bbab1d341c5ce6a0264eed10cb06981180aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:21 +0000
Subject: [PATCH 65/83] fix: a variable without a value is refused as a model
 error

---
 .../presentation/yaml/yaml_types/yaml_variable.py     | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/yaml_variable.py b/src/libecalc/presentation/yaml/yaml_types/yaml_variable.py
index 8e09725..f78e39c 100644
--- a/src/libecalc/presentation/yaml/yaml_types/yaml_variable.py
+++ b/src/libecalc/presentation/yaml/yaml_types/yaml_variable.py
@@ -1,6 +1,6 @@
 from typing import Annotated, Union
 
-from pydantic import StringConstraints
+from pydantic import AfterValidator, StringConstraints
 
 from libecalc.expression import Expression
 from libecalc.presentation.yaml.yaml_types import YamlBase
@@ -17,7 +17,14 @@ class YamlSingleVariable(YamlBase):
     value: Expression
 
 
-YamlTimeVariable = dict[YamlDefaultDatetime, YamlSingleVariable]
+
+def _not_empty(variable: dict) -> dict:
+    if len(variable) == 0:
+        raise ValueError("A variable must have a value")
+    return variable
+
+
+YamlTimeVariable = Annotated[dict[YamlDefaultDatetime, YamlSingleVariable], AfterValidator(_not_empty)]
 
 YamlVariable = Union[YamlSingleVariable, YamlTimeVariable]
 
-- 
2.43.0


From 80782f81b388f614ee800bfbc4fec49ab2c512c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:21 +0000
Subject: [PATCH 66/83] fix: a model without installations is refused as a
 model error

---
 .../presentation/yaml/yaml_types/components/yaml_asset.py  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libecalc/presentation/yaml/yaml_types/components/yaml_asset.py b/src/libecalc/presentation/yaml/yaml_types/components/yaml_asset.py
index dda59ef..b99d56f 100644
--- a/src/libecalc/presentation/yaml/yaml_types/components/yaml_asset.py
+++ b/src/libecalc/presentation/yaml/yaml_types/components/yaml_asset.py
@@ -174,6 +174,13 @@ class YamlAsset(YamlBase):
 
         return self
 
+    @field_validator("installations", mode="after")
+    @classmethod
+    def validate_at_least_one_installation(cls, installations):
+        if len(installations) == 0:
+            raise ValueError("At least one installation must be specified")
+        return installations
+
     @field_validator("time_series", mode="after")
     @classmethod
     def validate_unique_time_series_names(cls, collection, info: ValidationInfo):
-- 
2.43.0


From 209a54523eeb15878942e7ebba6f230555107d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:21 +0000
Subject: [PATCH 67/83] fix: a name of an emission that is no text is refused
 as a model error

---
 .../yaml/yaml_types/emitters/yaml_venting_emitter.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py b/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
index 97d6fcd..ae86a80 100644
--- a/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
+++ b/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
@@ -41,7 +41,7 @@ class YamlVentingVolumeEmission(YamlBase):
     @field_validator("name", mode="before")
     def check_name(cls, name, info: ValidationInfo):
         """Make name case-insensitive"""
-        return name.lower()
+        return name.lower() if isinstance(name, str) else name
 
 
 class YamlVentingVolume(YamlBase):
@@ -64,7 +64,7 @@ class YamlVentingEmission(YamlBase):
     @field_validator("name", mode="before")
     def check_name(cls, name, info: ValidationInfo):
         """Make name case-insensitive"""
-        return name.lower()
+        return name.lower() if isinstance(name, str) else name
 
 
 class YamlDirectTypeEmitter(YamlBase):
-- 
2.43.0


From 684819512c42763d0fef8f72f3681204895cfcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:17 +0000
Subject: [PATCH 68/83] fix: a compressor table used without its variables is
 refused as a model error

---
 .../core/sampled/compressor_model_sampled.py  |  6 ++++++
 .../yaml/mappers/consumer_function_mapper.py  | 19 +++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
index a98fbcb..9d2ad2b 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
@@ -104,6 +104,12 @@ class CompressorModelSampled:
         apparent_dimension: int = len(self.required_variables)
         non_degenerated_variables: list[str] = self._non_degenerated_variables(sampled_data[self.required_variables])
         geometric_dimension: int = len(non_degenerated_variables)
+        if geometric_dimension == 0:
+            raise ProcessMissingVariableValidationException(
+                message="Need at least one variable (rate, suction_pressure or discharge_pressure) with different values"
+            )
+        # The variables that must be given to evaluate the model
+        self.non_degenerated_variables = non_degenerated_variables
         degenerated_variables: list[str] = (
             [var for var in self.required_variables if var not in non_degenerated_variables]
             if geometric_dimension != apparent_dimension
diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index 4dc257d..7311807 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -39,6 +39,7 @@ from libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated
 from libecalc.domain.infrastructure.energy_components.turbine import Turbine
 from libecalc.domain.process.compressor.core.base import CompressorWithTurbineModel
 from libecalc.domain.process.compressor.core.sampled import CompressorModelSampled
+from libecalc.domain.process.compressor.core.sampled.constants import PD_NAME, PS_NAME, RATE_NAME
 from libecalc.domain.process.compressor.core.train.base import CompressorTrainModel, calculate_pressure_ratio_per_stage
 from libecalc.domain.process.compressor.core.train.compressor_train_common_shaft import CompressorTrainCommonShaft
 from libecalc.domain.process.compressor.core.train.simplified_train.simplified_train import CompressorTrainSimplified
@@ -1363,6 +1364,24 @@ class ConsumerFunctionMapper:
         # - If it is a sampled model, or a turbine model wrapping a sampled model, treat as non-process.
         # - Otherwise, treat as a process model.
         if _is_sampled_compressor(compressor_model):
+            sampled_model = (
+                compressor_model.compressor_model
+                if isinstance(compressor_model, CompressorWithTurbineModel)
+                else compressor_model
+            )
+            given_variables = {
+                RATE_NAME: stream_day_rate,
+                PS_NAME: suction_pressure,
+                PD_NAME: discharge_pressure,
+            }
+            missing_variables = [
+                name for name in sampled_model.non_degenerated_variables if given_variables[name] is None
+            ]
+            if len(missing_variables) > 0:
+                raise EcalcValidationException(
+                    f"'{model.energy_function}' depends on {', '.join(missing_variables)}, which must be specified."
+                )
+
             evaluation_input = CompressorSampledEvaluationInput(
                 rate=stream_day_rate,
                 power_loss_factor=power_loss_factor,
-- 
2.43.0


From 5f9b2b25266f979ff15a3ddca122b2e7da5b011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:14 +0000
Subject: [PATCH 69/83] fix: crossover to a consumer that does not exist is
 refused as a model error

---
 ...yaml_energy_usage_model_consumer_system.py | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py b/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
index 14a572f..f912ae6 100644
--- a/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
+++ b/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
@@ -222,6 +222,19 @@ class YamlEnergyUsageModelCompressorSystem(EnergyUsageModelCommon):
                         f"but system has {num_compressors} compressors."
                     )
 
+            # Validate crossover, one receiver (or 0) per compressor
+            if setting.crossover:
+                if len(setting.crossover) != num_compressors:
+                    raise ValueError(
+                        f"Operational setting {setting_num}: CROSSOVER has {len(setting.crossover)} values "
+                        f"but system has {num_compressors} compressors."
+                    )
+                if any(receiver < 0 or receiver > num_compressors for receiver in setting.crossover):
+                    raise ValueError(
+                        f"Operational setting {setting_num}: CROSSOVER must be 0 (no crossover) or the number of one of "
+                        f"the {num_compressors} compressors."
+                    )
+
         return self
 
 
@@ -325,6 +338,19 @@ class YamlEnergyUsageModelPumpSystem(EnergyUsageModelCommon):
                         f"but system has {num_pumps} pumps."
                     )
 
+            # Validate crossover, one receiver (or 0) per pump
+            if setting.crossover:
+                if len(setting.crossover) != num_pumps:
+                    raise ValueError(
+                        f"Operational setting {setting_num}: CROSSOVER has {len(setting.crossover)} values "
+                        f"but system has {num_pumps} pumps."
+                    )
+                if any(receiver < 0 or receiver > num_pumps for receiver in setting.crossover):
+                    raise ValueError(
+                        f"Operational setting {setting_num}: CROSSOVER must be 0 (no crossover) or the number of one of "
+                        f"the {num_pumps} pumps."
+                    )
+
             # Validate fluid_densities (pump-specific)
             if not setting.fluid_densities and self.fluid_density is None:
                 raise ValueError(
-- 
2.43.0


From bbfbceb0214aa7115d0d48ff556610938d667d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:06 +0000
Subject: [PATCH 70/83] fix: streams of a train that are unknown, unused, used
 twice or without rates are refused as a model error

---
 .../yaml/mappers/consumer_function_mapper.py  | 48 +++++++++++++++++--
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index 7311807..73697ee 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -15,6 +15,7 @@ from libecalc.common.errors.ecalc_validation_error import (
 )
 from libecalc.common.errors.exceptions import InvalidResourceException
 from libecalc.common.fixed_speed_pressure_control import FixedSpeedPressureControl, InterstagePressureControl
+from libecalc.common.string.string_utils import get_duplicates
 from libecalc.common.temporal_model import TemporalModel
 from libecalc.common.time_utils import Period, define_time_model_for_period
 from libecalc.common.units import Unit
@@ -188,6 +189,40 @@ def _map_condition(energy_usage_model: ConditionedModel) -> str | int | float |
         return None
 
 
+def _validate_streams(model: YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures):
+    """Every stream enters or leaves the train at exactly one stage, and there is one to enter the first."""
+    names = [stream.name for stream in model.streams]
+    duplicated_names = get_duplicates(names)
+    if len(duplicated_names) > 0:
+        raise EcalcValidationException(
+            f"STREAMS names must be unique. Duplicated names are: {', '.join(duplicated_names)}"
+        )
+
+    references = [reference for stage in model.stages for reference in stage.stream or []]
+    unknown_references = [reference for reference in references if reference not in names]
+    if len(unknown_references) > 0:
+        raise EcalcValidationException(
+            f"STREAM must refer to one of STREAMS. Unknown streams are: {', '.join(unknown_references)}"
+        )
+
+    duplicated_references = get_duplicates(references)
+    if len(duplicated_references) > 0:
+        raise EcalcValidationException(
+            "A stream can only enter or leave the train at one stage. "
+            f"Streams used more than once are: {', '.join(duplicated_references)}"
+        )
+
+    unused_names = [name for name in names if name not in references]
+    if len(unused_names) > 0:
+        raise EcalcValidationException(
+            f"All STREAMS must be used by a stage. Unused streams are: {', '.join(unused_names)}"
+        )
+
+    ingoing_names = {stream.name for stream in model.streams if isinstance(stream, YamlMultipleStreamsStreamIngoing)}
+    if len(model.stages) == 0 or ingoing_names.isdisjoint(model.stages[0].stream or []):
+        raise EcalcValidationException("The first stage must have an INGOING stream.")
+
+
 def _all_equal(items: set) -> bool:
     return len(items) <= 1
 
@@ -717,6 +752,7 @@ class CompressorModelMapper:
     def _create_variable_speed_compressor_train_multiple_streams_and_pressures(
         self, model: YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures, reference: str
     ) -> tuple[CompressorTrainCommonShaft, list[FluidModel | None]]:
+        _validate_streams(model)
         stream_references = {stream.name for stream in model.streams}
 
         shaft = VariableSpeedShaft()
@@ -1214,6 +1250,13 @@ class ConsumerFunctionMapper:
             else None
         )
 
+        stream_order = self._compressor_model_mapper.get_stream_order(model.compressor_train_model)
+        if len(model.rate_per_stream) != len(stream_order):
+            raise ValueError(
+                f"RATE_PER_STREAM has {len(model.rate_per_stream)} values but '{model.compressor_train_model}' has "
+                f"{len(stream_order)} streams."
+            )
+
         rates_per_stream: list[TimeSeriesFlowRate] = [
             ExpressionTimeSeriesFlowRate(
                 time_series_expression=TimeSeriesExpression(
@@ -1222,10 +1265,7 @@ class ConsumerFunctionMapper:
                 regularity=regularity,
                 consumption_rate_type=RateType.CALENDAR_DAY,
             )
-            for rate_expression in (
-                model.rate_per_stream[i]
-                for i in self._compressor_model_mapper.get_stream_order(model.compressor_train_model)
-            )
+            for rate_expression in (model.rate_per_stream[i] for i in stream_order)
         ]
 
         rates_per_stream_values = [rates.get_stream_day_values() for rates in rates_per_stream]
-- 
2.43.0


From 6f66ace06fed3b898bc85914b30453a98c54db7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:09 +0000
Subject: [PATCH 71/83] fix: errors in a table of a generator set name the
 facility input it belongs to

---
 src/libecalc/presentation/yaml/mappers/component_mapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libecalc/presentation/yaml/mappers/component_mapper.py b/src/libecalc/presentation/yaml/mappers/component_mapper.py
index 00bc7cc..285fd70 100644
--- a/src/libecalc/presentation/yaml/mappers/component_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/component_mapper.py
@@ -7,6 +7,7 @@ from pydantic import ValidationError
 from libecalc.common.component_type import ComponentType
 from libecalc.common.consumption_type import ConsumptionType
 from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
+from libecalc.common.errors.exceptions import InvalidResourceException
 from libecalc.common.temporal_model import InvalidTemporalModel, TemporalModel
 from libecalc.common.time_utils import Period, define_time_model_for_period
 from libecalc.common.variables import ExpressionEvaluator
-- 
2.43.0


From 3bded3de21737b25426e74507be0cf4f7f8f7e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:40 +0000
Subject: [PATCH 72/83] fix: dates of a temporal model that are not in order
 are refused as a model error

---
 .../yaml/yaml_models/pyyaml_yaml_model.py           |  4 +++-
 .../yaml/yaml_types/yaml_temporal_model.py          | 13 ++++++++++++-
 .../presentation/yaml/yaml_types/yaml_variable.py   |  1 -
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
index e32fad8..2df75be 100644
--- a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
+++ b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
@@ -323,7 +323,9 @@ class PyYamlYamlModel(YamlValidator, YamlConfiguration):
         ]
         resource_data = facility_input_data + model_curves_data
         resource_names: list[str] = [
-            data.get(EcalcYamlKeywords.file) for data in resource_data if isinstance(data.get(EcalcYamlKeywords.file), str)
+            data.get(EcalcYamlKeywords.file)
+            for data in resource_data
+            if isinstance(data.get(EcalcYamlKeywords.file), str)
         ]
 
         # Pick up FILE references nested in the new YAML sections (DEFINITIONS.PROCESS_UNITS, PROCESS_PIPELINES, ...).
diff --git a/src/libecalc/presentation/yaml/yaml_types/yaml_temporal_model.py b/src/libecalc/presentation/yaml/yaml_types/yaml_temporal_model.py
index ea9b5bb..23d8321 100644
--- a/src/libecalc/presentation/yaml/yaml_types/yaml_temporal_model.py
+++ b/src/libecalc/presentation/yaml/yaml_types/yaml_temporal_model.py
@@ -1,6 +1,6 @@
 from typing import Annotated, Any, Literal, TypeVar, Union
 
-from pydantic import Discriminator, Tag
+from pydantic import AfterValidator, Discriminator, Tag
 
 from libecalc.common.errors.exceptions import InvalidDateException
 from libecalc.common.time_utils import is_temporal_model
@@ -32,12 +32,23 @@ def discriminate_temporal_model(v: Any) -> Literal["single", "temporal"]:
     return "single"
 
 
+def check_dates_are_sorted(temporal_model: dict) -> dict:
+    dates = list(temporal_model)
+    if dates != sorted(dates):
+        raise ValueError(
+            "Dates in a temporal model should be sorted with the earliest date first. "
+            f"Got {', '.join(str(date) for date in dates)}"
+        )
+    return temporal_model
+
+
 TModel = TypeVar("TModel")
 YamlTemporalModel = Annotated[
     Union[
         Annotated[TModel, Tag("single")],
         Annotated[
             dict[YamlDefaultDatetime, TModel],
+            AfterValidator(check_dates_are_sorted),
             Tag("temporal"),
         ],
     ],
diff --git a/src/libecalc/presentation/yaml/yaml_types/yaml_variable.py b/src/libecalc/presentation/yaml/yaml_types/yaml_variable.py
index f78e39c..f45153f 100644
--- a/src/libecalc/presentation/yaml/yaml_types/yaml_variable.py
+++ b/src/libecalc/presentation/yaml/yaml_types/yaml_variable.py
@@ -17,7 +17,6 @@ class YamlSingleVariable(YamlBase):
     value: Expression
 
 
-
 def _not_empty(variable: dict) -> dict:
     if len(variable) == 0:
         raise ValueError("A variable must have a value")
-- 
2.43.0


From 1827bd9825d1836dfd56fc721a45cafaf8466f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:18 +0000
Subject: [PATCH 73/83] fix: a table without variables is refused as a model
 error

---
 .../legacy_consumer/tabulated/tabular_energy_function.py     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/tabular_energy_function.py b/src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/tabular_energy_function.py
index befeb5c..a728390 100644
--- a/src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/tabular_energy_function.py
+++ b/src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/tabular_energy_function.py
@@ -87,6 +87,11 @@ class TabularEnergyFunction:
 
             raise ProcessHeaderValidationException(message=str(msg))
 
+        if len(self.headers) < 2:
+            raise ProcessHeaderValidationException(
+                message="TABULAR facility input type data must have a variable in addition to 'FUEL' or 'POWER'"
+            )
+
     def validate_data(self):
         """
         Ensures all data columns are numeric and of equal length.
-- 
2.43.0


From 952fd482579c36c0027118f65df02a8737a1a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:14 +0000
Subject: [PATCH 74/83] fix: refuse a consumer whose fuel is not active in the
 run

---
 .../presentation/yaml/mappers/component_mapper.py         | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libecalc/presentation/yaml/mappers/component_mapper.py b/src/libecalc/presentation/yaml/mappers/component_mapper.py
index 285fd70..b9b0cf3 100644
--- a/src/libecalc/presentation/yaml/mappers/component_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/component_mapper.py
@@ -290,6 +290,11 @@ class EcalcModelMapper:
             data.electricity2fuel, target_period=self._target_period
         )
 
+        if len(generator_set_model_data) > 0 and len(list(fuel.get_models())) == 0:
+            raise ModelValidationException(
+                errors=[self._create_error(str(MissingFuelReference()), specific_path=fuel_yaml_path)]
+            )
+
         try:
             generator_set_model = TemporalModel(
                 {
@@ -533,6 +538,9 @@ class EcalcModelMapper:
                         defaults.fuel,
                     )
                 )
+                if len(list(fuel.get_models())) == 0:
+                    # No fuel is active in the period, but the consumer is
+                    raise MissingFuelReference()
             except (
                 InvalidReferenceException,
                 MissingFuelReference,
-- 
2.43.0


From c722ea5f359e81ca18b37ed350bf21cb31908921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:35 +0000
Subject: [PATCH 75/83] fix: compare the power of components that only one
 model has, without changing the models

---
 .../presentation/simple_result/simple.py      | 39 ++++++++++++-------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/libecalc/presentation/simple_result/simple.py b/src/libecalc/presentation/simple_result/simple.py
index e4100a8..d166375 100644
--- a/src/libecalc/presentation/simple_result/simple.py
+++ b/src/libecalc/presentation/simple_result/simple.py
@@ -56,6 +56,12 @@ class ComponentID(NamedTuple):
         return f"(type: '{self.componentType}', name: '{self.name}')"
 
 
+def _subtract_power(first: list[float] | None, second: list[float] | None) -> list[float]:
+    """A component without power in only one of the models uses zero power in that model."""
+    first, second = first or [], second or []
+    return _subtract_list(first or [0.0] * len(second), second or [0.0] * len(first))
+
+
 def _subtract_list(first: list[float], second: list[float]):
     subtracted = []
     for f, s in zip(first, second):
@@ -211,7 +217,7 @@ class SimpleComponentResult(SimpleBase):
             is_valid=[changed and reference for changed, reference in zip(self.is_valid, reference_component.is_valid)],
             energy_usage=_subtract_list(self.energy_usage, reference_component.energy_usage),
             energy_usage_unit=self.energy_usage_unit,
-            power=_subtract_list(self.power, reference_component.power),  # type: ignore[arg-type]
+            power=_subtract_power(self.power, reference_component.power),
             emissions={
                 self_e.name: self_e - reference_e
                 for self_e, reference_e in zip(
@@ -307,18 +313,25 @@ class SimpleResultData(SimpleBase):
 
     @classmethod
     def _normalize_emissions(cls, changed_component, reference_component):
-        emission_names = set(changed_component.emissions.keys()).union(x for x in reference_component.emissions)
-
-        for emission_name in emission_names:
-            for component in [changed_component, reference_component]:
-                if emission_name not in list(component.emissions):
-                    vector_length = len(component.periods)
-                    component.emissions[emission_name] = SimpleEmissionResult(
-                        name=emission_name,
-                        rate=[0] * vector_length,
-                    )
-
-        return changed_component, reference_component
+        emission_names = [
+            *changed_component.emissions,
+            *(name for name in reference_component.emissions if name not in changed_component.emissions),
+        ]
+
+        def with_all_emissions(component: SimpleComponentResult) -> SimpleComponentResult:
+            # A copy, the models that are compared should not change
+            return component.model_copy(
+                update={
+                    "emissions": {
+                        emission_name: component.emissions[emission_name]
+                        if emission_name in component.emissions
+                        else SimpleEmissionResult(name=emission_name, rate=[0] * len(component.periods))
+                        for emission_name in emission_names
+                    }
+                }
+            )
+
+        return with_all_emissions(changed_component), with_all_emissions(reference_component)
 
     @classmethod
     def normalize_components(
-- 
2.43.0


From 750e8f15ddea55f55537a90a5890c782b6ac5492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:48 +0000
Subject: [PATCH 76/83] fix: set the pressure constraint of every section but
 the last at the end of the section

The index of a section was compared with the number of sections, which it never
reaches, so the constraint of every section was set at the unit before the last:
for a section that is not the last, inside its recirculation loop or before its
choke.
---
 .../presentation/yaml/mappers/process_simulation_mapper.py   | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
index 17a9239..4ebfef1 100644
--- a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
@@ -436,9 +436,8 @@ class ProcessSimulationMapper:
                 zip(process_pipeline_sections, mapped_sections, assembled_sections, strict=True)
             ):
                 # For the first n-1 sections, we put it at the last unit, for the nth section we put it before the outlet unit
-                constraint_position = -2
-                if nr == len(process_pipeline_sections):
-                    constraint_position = -1
+                is_last_section = nr == len(process_pipeline_sections) - 1
+                constraint_position = -2 if is_last_section else -1
                 target_process_unit_id = pipeline_section.get_process_units()[
                     constraint_position
                 ].get_id()  # The last unit is the outlet, so we take the one before that
-- 
2.43.0


From 40b9e438bd8ac35bec1cc1aa35b77ecdb3c887dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:48 +0000
Subject: [PATCH 77/83] fix: refuse two constraints at the outlet of a process
 pipeline

A constraint at the last unit together with one at the pipeline outlet ended in an
IndexError.
---
 .../presentation/yaml/mappers/process/process_partitioner.py  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libecalc/presentation/yaml/mappers/process/process_partitioner.py b/src/libecalc/presentation/yaml/mappers/process/process_partitioner.py
index 5e6cdc7..ca6a8f0 100644
--- a/src/libecalc/presentation/yaml/mappers/process/process_partitioner.py
+++ b/src/libecalc/presentation/yaml/mappers/process/process_partitioner.py
@@ -70,6 +70,10 @@ class ProcessPartitioner:
             current_units = []
 
         if terminal_constraint is not None:
+            if not current_units:
+                raise EcalcValidationException(
+                    "The process pipeline outlet is already constrained by the constraint at the last process unit."
+                )
             sections.append(
                 MappedSection(
                     process_units=current_units,
-- 
2.43.0


From 65b77d9fcd7c3f4afaf08bf872b0f5ce9fa59eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:48 +0000
Subject: [PATCH 78/83] fix: refuse a pipeline event for a process unit that is
 not in the pipeline

It ended in a KeyError.
---
 .../yaml/mappers/process_simulation_mapper.py            | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
index 4ebfef1..8e08215 100644
--- a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
@@ -258,6 +258,13 @@ class ProcessSimulationMapper:
                     f"Pipeline event '{yaml_event.ref}' does not match any known process event."
                 )
 
+            change_target = unit_name_to_id.get(yaml_event.change_target)
+            if change_target is None:
+                raise EcalcValidationException(
+                    f"Pipeline event CHANGE_TARGET '{yaml_event.change_target}' does not match any named process unit "
+                    f"in process pipeline '{yaml_pipeline.name}'."
+                )
+
             if (change_to_yaml_process_unit := self._reference_service.get_process_unit(yaml_event.change_to)) is None:
                 raise EcalcValidationException(
                     f"Pipeline event CHANGE_TO '{yaml_event.change_to}' does not refer to a known process unit."
@@ -274,7 +281,7 @@ class ProcessSimulationMapper:
             events.append(
                 PipelineEvent(
                     action=PipelineEventAction(yaml_event.type.value),
-                    change_target=unit_name_to_id[yaml_event.change_target],
+                    change_target=change_target,
                     change_to=change_to_unit,
                     change_type=PipelineEventChangeType(yaml_event.change_type.value),
                     change_time=ecalc_event.start,
-- 
2.43.0


From 766f4ec9d9b8cdabc40efeee315bf7edfdbc1233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:48 +0000
Subject: [PATCH 79/83] fix: refuse a stream distribution that does not fit the
 targets of a process simulation

Too few or too many rate fractions or inlet streams, or the same target twice, were
accepted.
---
 .../yaml/mappers/process_simulation_mapper.py     | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
index 8e08215..b4c0467 100644
--- a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
@@ -314,6 +314,11 @@ class ProcessSimulationMapper:
             problem_configuration_handlers = []
             shaft = VariableSpeedShaft()
             item = self._resolve_pipeline_reference(yaml_compressor_train_item)
+            if item.name in process_pipeline_reference_to_id_map:
+                raise EcalcValidationException(
+                    f"Process system '{item.name}' is a target of process simulation "
+                    f"'{yaml_process_simulation.name}' more than once."
+                )
             process_unit_map: dict[ProcessUnitId, ProcessUnit] = {}
             compressor_ids: list[ProcessUnitId] = []
             unit_name_to_id: dict[InstanceReference, ProcessUnitId] = {}
@@ -504,6 +509,11 @@ class ProcessSimulationMapper:
             case "COMMON_STREAM":
                 settings = []
                 for setting in yaml_stream_distribution.settings:
+                    if len(setting.rate_fractions) != len(process_pipelines):
+                        raise EcalcValidationException(
+                            f"Process simulation '{yaml_process_simulation.name}' has {len(process_pipelines)} targets, "
+                            f"but a stream distribution setting with {len(setting.rate_fractions)} rate fractions."
+                        )
                     rate_fractions: list[TimeSeriesExpression] = []
                     for rate_fraction in setting.rate_fractions:
                         rate_fractions.append(
@@ -556,6 +566,11 @@ class ProcessSimulationMapper:
                     settings=settings,
                 )
             case "INDIVIDUAL_STREAMS":
+                if len(yaml_stream_distribution.inlet_streams) != len(process_pipelines):
+                    raise EcalcValidationException(
+                        f"Process simulation '{yaml_process_simulation.name}' has {len(process_pipelines)} targets, "
+                        f"but {len(yaml_stream_distribution.inlet_streams)} inlet streams."
+                    )
                 inlet_streams = []
                 for inlet_stream in yaml_stream_distribution.inlet_streams:
                     yaml_stream = self._resolve_stream_reference(inlet_stream)
-- 
2.43.0


From c30ff31d9ef9bc9b517aaac962c3f1da3f202313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:48 +0000
Subject: [PATCH 80/83] fix: refuse process pipelines and inlet streams with
 the name of something else

They are referred to by name, but only their keys were required to be unique, so one
of two with the same name was never used.
---
 .../presentation/yaml/yaml_types/components/yaml_asset.py  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/components/yaml_asset.py b/src/libecalc/presentation/yaml/yaml_types/components/yaml_asset.py
index b99d56f..87a15de 100644
--- a/src/libecalc/presentation/yaml/yaml_types/components/yaml_asset.py
+++ b/src/libecalc/presentation/yaml/yaml_types/components/yaml_asset.py
@@ -210,7 +210,9 @@ class YamlAsset(YamlBase):
         for fuel_type in self.fuel_types:
             references.append(fuel_type.name)
 
-        references.extend(self.process_pipelines.keys())
+        # Process pipelines and inlet streams are referred to by their name, which may differ from their key
+        for process_pipeline_key, process_pipeline in self.process_pipelines.items():
+            references.extend({process_pipeline_key, process_pipeline.name})
 
         references.extend(self.definitions.process_units.keys())
         references.extend(self.definitions.fluids.keys())
@@ -225,7 +227,8 @@ class YamlAsset(YamlBase):
 
         references.extend(self.fluid_models.keys())
 
-        references.extend(self.inlet_streams.keys())
+        for inlet_stream_key, inlet_stream in self.inlet_streams.items():
+            references.extend({inlet_stream_key, inlet_stream.name})
 
         duplicated_references = get_duplicates(references)
 
-- 
2.43.0


From 3d3a36fd6f67ba78fd4ab4c8230d7386e3bb8925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:07 +0000
Subject: [PATCH 81/83] fix: a stonewall at low speeds does not make the
 equation of state fail at every speed

---
 .../process_solver/finders/shaft_speed_finder.py       | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/libecalc/process/process_solver/finders/shaft_speed_finder.py b/src/libecalc/process/process_solver/finders/shaft_speed_finder.py
index 0c3be9c..3816e40 100644
--- a/src/libecalc/process/process_solver/finders/shaft_speed_finder.py
+++ b/src/libecalc/process/process_solver/finders/shaft_speed_finder.py
@@ -139,12 +139,10 @@ class ShaftSpeedFinder(Finder[SpeedConfiguration]):
         try:
             func(SpeedConfiguration(speed=speed))
             return True
-        except (
-            CompressorThermodynamicCalculationError,
-            CompressorStonewallError,
-            CompressorSurgeError,
-            InsufficientInletPressureError,
-        ):
+        except (CompressorStonewallError, InsufficientInletPressureError):
+            # The speed is too low, which does not tell that the EOS fails from the lowest speed
+            return True
+        except (CompressorThermodynamicCalculationError, CompressorSurgeError):
             return False
 
     def _find_min_within_capacity_speed(
-- 
2.43.0


From a02646a32174b3038dea1f824fdb0bb0abb88e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:51 +0000
Subject: [PATCH 82/83] fix: subsets of variables for a period that starts
 before or ends after the run

A model without START has a period that starts in 1900, and its process
simulations ended in a ValueError.
---
 src/libecalc/common/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/common/variables.py b/src/libecalc/common/variables.py
index 77ee09a..02b88e2 100644
--- a/src/libecalc/common/variables.py
+++ b/src/libecalc/common/variables.py
@@ -77,8 +77,8 @@ class VariablesMap:
 
         # Check if the start and end of the period of interest are equal to dates in the global time vector
         if period_start in self._time_vector and period_end in self._time_vector:
-            start_index = self._time_vector.index(period.start)
-            end_index = self._time_vector.index(period.end)
+            start_index = self._time_vector.index(period_start)
+            end_index = self._time_vector.index(period_end)
         else:
             raise ProgrammingError(
                 "Trying to access a period that does not exist in the global time vector. Please contact eCalc support."
-- 
2.43.0


From c57ecf8535852f4a59dbe31d2da435785967d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:31 +0000
Subject: [PATCH 83/83] fix: without START a run starts at the first date of
 its time series, not in 1900

Component models that ended before the first date ended in an IndexError,
and fuels dated after 1900 were said not to cover the run.
---
 src/libecalc/presentation/yaml/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/model.py b/src/libecalc/presentation/yaml/model.py
index f49e9e7..12dc98c 100644
--- a/src/libecalc/presentation/yaml/model.py
+++ b/src/libecalc/presentation/yaml/model.py
@@ -271,8 +271,9 @@ class YamlModel:
 
     @property
     def period(self) -> Period:
+        first_date = self._variables.period.start if self._variables is not None else DEFAULT_START_TIME
         return Period(
-            start=self.start or DEFAULT_START_TIME,
+            start=self.start or first_date,
             end=self.end or datetime.max,
         )
 
-- 
2.43.0

