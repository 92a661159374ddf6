From cebf0172a429925ed001870fb05af58c454e3239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:04 +0000
Subject: [PATCH 01/38] fix: logger_last iterated over the keys of the log
 instead of its items

---
 src/pymgrid/modules/base/base_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 60a25ac..a76852a 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -463,7 +463,7 @@ class BaseMicrogridModule(yaml.YAMLObject):
         entry : dict
 
         """
-        return {k: v[-1] for k, v in self._logger}
+        return {k: v[-1] for k, v in self._logger.items()}
 
     @logger.setter
     def logger(self, logger):
-- 
2.43.0


From f974c3a18ebba0b3e12d4a9cf807375ddaf3ea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:04 +0000
Subject: [PATCH 02/38] fix: StochasticTrajectory could draw an empty episode
 (final_step == initial_step)

---
 src/pymgrid/microgrid/trajectory/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/trajectory/stochastic.py b/src/pymgrid/microgrid/trajectory/stochastic.py
index 8d21b15..bb14c8f 100644
--- a/src/pymgrid/microgrid/trajectory/stochastic.py
+++ b/src/pymgrid/microgrid/trajectory/stochastic.py
@@ -9,7 +9,7 @@ class StochasticTrajectory(BaseTrajectory):
     def __call__(self, initial_step, final_step):
 
         initial = np.random.randint(initial_step, final_step-2)
-        final = np.random.randint(initial, final_step)
+        final = np.random.randint(initial + 1, final_step)
 
         return initial, final
 
-- 
2.43.0


From 04e01984f856ac455e4792f6809c7544ed310b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:04 +0000
Subject: [PATCH 03/38] fix: FixedLengthStochasticTrajectory rejected the
 longest admissible length and never drew the last window

---
 src/pymgrid/microgrid/trajectory/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/trajectory/stochastic.py b/src/pymgrid/microgrid/trajectory/stochastic.py
index bb14c8f..0bcd9f7 100644
--- a/src/pymgrid/microgrid/trajectory/stochastic.py
+++ b/src/pymgrid/microgrid/trajectory/stochastic.py
@@ -25,6 +25,6 @@ class FixedLengthStochasticTrajectory(BaseTrajectory):
             raise ValueError(f'Cannot create a trajectory of length {self.trajectory_length}'
                              f'between initial_step ({initial_step}) and final_step ({final_step})')
 
-        initial = np.random.randint(initial_step, final_step-self.trajectory_length)
+        initial = np.random.randint(initial_step, final_step - self.trajectory_length + 1)
 
         return initial, initial + self.trajectory_length
-- 
2.43.0


From 53c018db0b9486ecef54b8e09679a2eeb0a4c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:32 +0000
Subject: [PATCH 04/38] fix: restored logs held pandas Series, so a loaded
 module could not be compared or stepped

---
 src/pymgrid/utils/logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/utils/logger.py b/src/pymgrid/utils/logger.py
index b693595..1645b5d 100644
--- a/src/pymgrid/utils/logger.py
+++ b/src/pymgrid/utils/logger.py
@@ -47,5 +47,5 @@ class ModularLogger(UserDict):
         if raw is None:
             return cls()
         elif isinstance(raw, str):
-            raw = pd.read_csv(raw).to_dict()
-        return cls(raw)
+            raw = pd.read_csv(raw)
+        return cls({k: list(v) for k, v in raw.items()})
-- 
2.43.0


From 6c5b56de66ee4dae8b5d4541d7d56fbc1f449c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:01 +0000
Subject: [PATCH 05/38] fix: a value missing from one log call shifted its
 later entries and made the log ragged

---
 src/pymgrid/utils/logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymgrid/utils/logger.py b/src/pymgrid/utils/logger.py
index 1645b5d..4a56014 100644
--- a/src/pymgrid/utils/logger.py
+++ b/src/pymgrid/utils/logger.py
@@ -25,6 +25,9 @@ class ModularLogger(UserDict):
                 self[key] = [np.nan]*self._log_length
                 self[key].append(value)
 
+        for key in self.data.keys() - log_dict.keys():
+            self[key].append(np.nan)
+
         self._log_length += 1
 
     def to_dict(self):
-- 
2.43.0


From 5bc14848d2f2413702ab6c331a600001762a6030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:01 +0000
Subject: [PATCH 06/38] fix: a module name shared by modules of different types
 silently dropped modules instead of raising NameError

---
 src/pymgrid/modules/module_container.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/modules/module_container.py b/src/pymgrid/modules/module_container.py
index 0ceabf4..95da642 100644
--- a/src/pymgrid/modules/module_container.py
+++ b/src/pymgrid/modules/module_container.py
@@ -389,9 +389,8 @@ def get_subcontainers(modules):
         else:
             raise TypeError(f'Cannot parse fixed_flex_controllable from module type {module.__class__.module_type}')
 
-        try:
-            module_names[module_name] = (fixed_flex_controllable, source_sink_both)
-        except KeyError:
+        module_type = (fixed_flex_controllable, source_sink_both)
+        if module_names.setdefault(module_name, module_type) != module_type:
             raise NameError(
                 f'Attempted to add module {module_name} of type {(fixed_flex_controllable, source_sink_both)}, '
                 f'but there is an identically named module of type {module_names[module_name]}.')
-- 
2.43.0


From f076b8021a6b48644069123069bfe4771dec69cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:01 +0000
Subject: [PATCH 07/38] fix: a microgrid without time-series modules could not
 be constructed

---
 src/pymgrid/microgrid/microgrid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 79049c0..cee68af 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -667,7 +667,10 @@ class Microgrid(yaml.YAMLObject):
         return self._final_step
 
     def _get_module_final_step(self):
-        final_step = self.modules.get_attrs('final_step', unique=True)
+        try:
+            final_step = self.modules.get_attrs('final_step', unique=True)
+        except AttributeError:
+            return np.inf
         try:
             return final_step.item()
         except ValueError:
-- 
2.43.0


From cda8d08a8972f6420d033d825a539b72bcbbe035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:01 +0000
Subject: [PATCH 08/38] fix: Microgrid.set_forecaster silently ignored
 forecasters passed as a dict

---
 src/pymgrid/microgrid/microgrid.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index cee68af..be906af 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -529,15 +529,16 @@ class Microgrid(yaml.YAMLObject):
                 if module_name not in self._modules.names():
                     raise NameError(f'Unrecognized module {module_name}.')
 
-                try:
-                    self._modules[module_name].set_forecaster(
-                        _forecaster,
-                        forcast_horizon=forecast_horizon,
-                        forecaster_increase_uncertainty=forecaster_increase_uncertainty,
-                        forecaster_relative_noise=forecaster_relative_noise
-                    )
-                except AttributeError:
-                    pass
+                for module in self._modules[module_name]:
+                    try:
+                        module.set_forecaster(
+                            _forecaster,
+                            forecast_horizon=forecast_horizon,
+                            forecaster_increase_uncertainty=forecaster_increase_uncertainty,
+                            forecaster_relative_noise=forecaster_relative_noise
+                        )
+                    except AttributeError:
+                        pass
         else:
             for module in self._modules.iterlist():
                 try:
-- 
2.43.0


From 3b20fb64a01ecb94abc2b5a1320afa9cdc43af8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:01 +0000
Subject: [PATCH 09/38] fix: the reward shaping function was lost when saving
 and loading a microgrid

---
 src/pymgrid/microgrid/microgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index be906af..a59077c 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -892,6 +892,7 @@ class Microgrid(yaml.YAMLObject):
         instance = cls(mapping["modules"], add_unbalanced_module=False)
         instance._balance_logger = instance._balance_logger.from_raw(mapping.get("balance_log"))
         instance.trajectory_func = mapping.get('trajectory_func', None)
+        instance.reward_shaping_func = mapping.get('reward_shaping_func', None)
         instance._initial_step = mapping.get('initial_step', instance.initial_step)
         instance._final_step = mapping.get('final_step', instance.final_step)
         return instance
@@ -906,6 +907,7 @@ class Microgrid(yaml.YAMLObject):
         return {
             "modules": self._modules.to_tuples(),
             'trajectory_func': self.trajectory_func,
+            'reward_shaping_func': self.reward_shaping_func,
             'initial_step': self.initial_step,
             'final_step': self.final_step,
             **self._balance_logger.serialize("balance_log")
-- 
2.43.0


From 5bb1f150a618ba19deab1dbfd8b4db99e2e537f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:01 +0000
Subject: [PATCH 10/38] fix: replacing a time series left the forecaster
 clipping to the bounds of the old one

---
 src/pymgrid/modules/base/timeseries/base_timeseries_module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 080fb6c..993bb20 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -158,6 +158,8 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
         self._min_obs, self._max_obs, self._min_act, self._max_act = self._get_bounds()
         self._action_space = self._get_action_spaces()
         self._observation_space = self._get_observation_spaces()
+        self._forecaster.observation_space = self._observation_space
+        self._current_forecast = self.forecast()
 
     @property
     def min_obs(self):
-- 
2.43.0


From ac209446d4600a88ae5d6de1ddc391012a917a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:21 +0000
Subject: [PATCH 11/38] fix: changing the forecaster or horizon left a stale
 forecast in the state and was lost when saving

---
 .../modules/base/timeseries/base_timeseries_module.py     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 993bb20..8c52971 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -236,7 +236,10 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
 
         """
 
-        self.forecast_horizon = forecast_horizon * (forecaster is not None)
+        self._forecast_param = forecaster
+        self._forecast_horizon = forecast_horizon * (forecaster is not None)
+        self._state_dict_keys = self._set_state_dict_keys()
+        self._observation_space = self._get_observation_spaces()
 
         self._forecaster = get_forecaster(forecaster,
                                           self._observation_space,
@@ -244,6 +247,7 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
                                           self.time_series[self.initial_step:self._final_step, :],
                                           increase_uncertainty=forecaster_increase_uncertainty,
                                           relative_noise=forecaster_relative_noise)
+        self._current_forecast = self.forecast()
 
     @property
     def forecast_horizon(self):
@@ -271,8 +275,10 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
             self._forecaster = OracleForecaster(self._observation_space,
                                                 forecast_shape=(value, len(self.state_components))
                                                 )
+            self._forecast_param = "oracle"
 
         self._forecaster.observation_space = self._observation_space
+        self._current_forecast = self.forecast()
 
     @property
     def forecaster_increase_uncertainty(self):
-- 
2.43.0


From 6b032ee014a28bea6325908b218c0667bd775d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:21 +0000
Subject: [PATCH 12/38] fix: scalar user-defined forecasters failed within one
 horizon of the end of the series

---
 src/pymgrid/forecast/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 6a45243..3ee7dd0 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -361,7 +361,7 @@ def _validate_forecasted_value(forecaster_output, true_forecast, val_c, n):
 
 def vectorize_scalar_forecaster(forecaster):
     def vectorized(val_c, val_c_n, n):
-        if n != len(val_c_n):
+        if n < len(val_c_n):
             raise ValueError(f"Incompatible true values length ({val_c_n}) to forecast {n}-steps ahead.")
         vectorized_output = np.array([forecaster(val_c, val_c_n_i, n_i) for n_i, val_c_n_i in enumerate(val_c_n)])
         try:
-- 
2.43.0


From 5e69625affa7bd3070627a89e4ae974085bd399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:21 +0000
Subject: [PATCH 13/38] fix: scalar user-defined forecasters were told n - 1
 when forecasting n steps ahead

---
 src/pymgrid/forecast/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 3ee7dd0..d45832d 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -363,7 +363,7 @@ def vectorize_scalar_forecaster(forecaster):
     def vectorized(val_c, val_c_n, n):
         if n < len(val_c_n):
             raise ValueError(f"Incompatible true values length ({val_c_n}) to forecast {n}-steps ahead.")
-        vectorized_output = np.array([forecaster(val_c, val_c_n_i, n_i) for n_i, val_c_n_i in enumerate(val_c_n)])
+        vectorized_output = np.array([forecaster(val_c, val_c_n_i, n_i) for n_i, val_c_n_i in enumerate(val_c_n, start=1)])
         try:
             shape = (-1, vectorized_output.shape[1])
         except IndexError:
-- 
2.43.0


From 52b0624d60433505fff8c17e1e65942eac5f79f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:08 +0000
Subject: [PATCH 14/38] fix: clipping a forecast wrote into the stored time
 series

---
 src/pymgrid/modules/base/timeseries/base_timeseries_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 8c52971..bec9b05 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -109,7 +109,7 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
         forecast : None or np.ndarray, shape (n, len(self.state_components))
             The forecasted time series.
         """
-        val_c_n = self.time_series[1+self.current_step:1+self.current_step+self.forecast_horizon, :]
+        val_c_n = self.time_series[1+self.current_step:1+self.current_step+self.forecast_horizon, :].copy()
         try:
             val_c = self.time_series[self.current_step, :]
         except IndexError:
-- 
2.43.0


From 55442f92fe5e77a850e797986d9d1839eaeb3585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:04 +0000
Subject: [PATCH 15/38] fix: the battery's action bounds had its charge and
 discharge limits swapped

---
 src/pymgrid/modules/battery_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/modules/battery_module.py b/src/pymgrid/modules/battery_module.py
index 67692a5..945742b 100644
--- a/src/pymgrid/modules/battery_module.py
+++ b/src/pymgrid/modules/battery_module.py
@@ -331,11 +331,11 @@ class BatteryModule(BaseMicrogridModule):
 
     @property
     def min_act(self):
-        return -self.max_discharge / self.efficiency
+        return -self.max_charge / self.efficiency
 
     @property
     def max_act(self):
-        return self.max_charge * self.efficiency
+        return self.max_discharge * self.efficiency
 
     @property
     def production_marginal_cost(self):
-- 
2.43.0


From 0227f206073eccc0a021720efc65fe6c91222267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:44 +0000
Subject: [PATCH 16/38] fix: rounding could charge a battery above its
 capacity, after which charging it raised AssertionError

---
 src/pymgrid/modules/battery_module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymgrid/modules/battery_module.py b/src/pymgrid/modules/battery_module.py
index 945742b..dbaf01c 100644
--- a/src/pymgrid/modules/battery_module.py
+++ b/src/pymgrid/modules/battery_module.py
@@ -127,6 +127,9 @@ class BatteryModule(BaseMicrogridModule):
         if self._current_charge < self.min_capacity:
             assert np.isclose(self._current_charge, self.min_capacity)
             self._current_charge = self.min_capacity
+        elif self._current_charge > self.max_capacity:
+            assert np.isclose(self._current_charge, self.max_capacity)
+            self._current_charge = self.max_capacity
         self._soc = self._current_charge/self.max_capacity
 
     def get_cost(self, energy_change):
-- 
2.43.0


From d2dcd02ee315103c42988e34ec9effb0763dd2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:30 +0000
Subject: [PATCH 17/38] fix: a time-series module accepted a final step not
 after its initial step at construction

---
 src/pymgrid/modules/base/timeseries/base_timeseries_module.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index bec9b05..5900f1d 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -35,6 +35,7 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
         self._time_series = self._set_time_series(time_series)
         self._min_obs, self._max_obs, self._min_act, self._max_act = self._get_bounds()
 
+        self.initial_step = initial_step
         self.final_step = final_step
 
         self._forecast_param = forecaster
-- 
2.43.0


From 1b19be71f3f99db7254822903b18330f3b98c870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:16 +0000
Subject: [PATCH 18/38] fix: the normalized state of a module with a single
 state component raised TypeError

---
 src/pymgrid/modules/base/base_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index a76852a..d1fad86 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -485,7 +485,7 @@ class BaseMicrogridModule(yaml.YAMLObject):
 
         """
         if normalized:
-            return dict(zip(self.state_dict().keys(), self._observation_space.normalize(self.state)))
+            return dict(zip(self.state_dict().keys(), np.atleast_1d(self._observation_space.normalize(self.state))))
 
         return self._state_dict()
 
-- 
2.43.0


From 2aaed7673ae31bd44664e092877b55a6d99c979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:59 +0000
Subject: [PATCH 19/38] fix: the microgrid log could not be read when the
 episode started after the microgrid's initial step

---
 src/pymgrid/microgrid/microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index a59077c..dbf3aab 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -463,7 +463,7 @@ class Microgrid(yaml.YAMLObject):
 
         col_names = ['module_name', 'module_number', 'field']
 
-        df = pd.DataFrame(_log_dict, index=pd.RangeIndex(start=self.initial_step, stop=self.current_step))
+        df = pd.DataFrame(_log_dict, index=pd.RangeIndex(start=self.current_step - len(self._balance_logger), stop=self.current_step))
         df.columns = pd.MultiIndex.from_tuples(df.columns.to_list(), names=col_names)
 
         if drop_singleton_key:
-- 
2.43.0


From c43a6c48957612dfbbf5aa55c9629b267a3fa44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:49 +0000
Subject: [PATCH 20/38] fix: saving modules of the same class, or several files
 in one directory, overwrote each other's data files

---
 src/pymgrid/utils/serialize.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/serialize.py b/src/pymgrid/utils/serialize.py
index 45be9c2..3d4d3a3 100644
--- a/src/pymgrid/utils/serialize.py
+++ b/src/pymgrid/utils/serialize.py
@@ -25,7 +25,14 @@ def dump_data(data_dict, stream, yaml_tag):
     if not hasattr(stream, "name"):
         return data_dict
 
-    path = Path(stream.name).parent / "data"
+    stream_path = Path(stream.name)
+    path = stream_path.parent / "data" / stream_path.stem
+
+    # Modules in a microgrid of the same class must not share files.
+    module_id = [str(x) for x in data_dict.get("name", ()) if x is not None]
+    if module_id:
+        path = path / "_".join(module_id)
+
     return add_path_to_arr_like(data_dict, path, yaml_tag)
 
 
-- 
2.43.0


From 5951ee8fff9688254f261595dba75349c193ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:49 +0000
Subject: [PATCH 21/38] fix: series and logs loaded from file differed from the
 saved ones by rounding

---
 src/pymgrid/utils/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/serialize.py b/src/pymgrid/utils/serialize.py
index 3d4d3a3..1140e37 100644
--- a/src/pymgrid/utils/serialize.py
+++ b/src/pymgrid/utils/serialize.py
@@ -109,7 +109,7 @@ def _pandas_df_constructor(loader, node):
 
         data_path = Path(stream_name).parent / data_path
 
-    return pd.read_csv(data_path, index_col=0)
+    return pd.read_csv(data_path, index_col=0, float_precision="round_trip")
 
 
 def _numpy_arr_constructor(loader, node):
-- 
2.43.0


From a6587758c8a68385b8584119217ee6bd56923ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:49 +0000
Subject: [PATCH 22/38] fix: a time-series module loaded during an episode
 reported the forecast of its initial step

---
 .../modules/base/timeseries/base_timeseries_module.py        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 5900f1d..b00157b 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -354,5 +354,10 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
     def serializable_state_attributes(self):
         return ["_current_step"]
 
+    def deserialize(self, serialized_dict):
+        super().deserialize(serialized_dict)
+        self._current_forecast = self.forecast()
+        return self
+
     def __len__(self):
         return self._time_series.shape[0]
-- 
2.43.0


From 7e6274639b8e0fbbc3db15e125265b604822e7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:49 +0000
Subject: [PATCH 23/38] fix: comparing forecasters with increasing uncertainty
 raised ValueError

---
 src/pymgrid/forecast/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index d45832d..dd8d75b 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -167,7 +167,7 @@ class Forecaster:
             return NotImplemented
 
         return (self._fill_arr == other._fill_arr).all() and \
-               all(v == other.__dict__[k] for k, v in self.__dict__.items() if k != '_fill_arr')
+               all(np.all(v == other.__dict__[k]) for k, v in self.__dict__.items() if k != '_fill_arr')
 
     def __call__(self, val_c, val_c_n, n):
         if len(val_c_n.shape) == 1:
-- 
2.43.0


From bac3d81a25831b527cb265544eaa0849bd5394ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:35 +0000
Subject: [PATCH 24/38] fix: a microgrid with a trajectory or reward shaper
 without parameters could not be saved

---
 src/pymgrid/microgrid/reward_shaping/base.py | 4 ++++
 src/pymgrid/microgrid/trajectory/base.py     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/pymgrid/microgrid/reward_shaping/base.py b/src/pymgrid/microgrid/reward_shaping/base.py
index f127af1..bd8156f 100644
--- a/src/pymgrid/microgrid/reward_shaping/base.py
+++ b/src/pymgrid/microgrid/reward_shaping/base.py
@@ -19,5 +19,9 @@ class BaseRewardShaper(yaml.YAMLObject):
     def __call__(self, step_info, cost_info):
         pass
 
+    def __getstate__(self):
+        # object.__getstate__ is None without attributes, which yaml cannot represent.
+        return self.__dict__.copy()
+
     def __repr__(self):
         return f'{self.__class__.__name__}()'
diff --git a/src/pymgrid/microgrid/trajectory/base.py b/src/pymgrid/microgrid/trajectory/base.py
index 8aee672..eea66a7 100644
--- a/src/pymgrid/microgrid/trajectory/base.py
+++ b/src/pymgrid/microgrid/trajectory/base.py
@@ -12,6 +12,10 @@ class BaseTrajectory(yaml.YAMLObject):
     def __call__(self, initial_step, final_step):
         pass
 
+    def __getstate__(self):
+        # object.__getstate__ is None without attributes, which yaml cannot represent.
+        return self.__dict__.copy()
+
     def __repr__(self):
         params = inspect.signature(self.__init__).parameters
         formatted_params = ', '.join([f'{p}={getattr(self, p)}' for p in params])
-- 
2.43.0


From 1bcb04d475d30e57cfb6907f4d96e04d6db00f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:11 +0000
Subject: [PATCH 25/38] fix: representing or comparing a StochasticTrajectory
 raised AttributeError

---
 src/pymgrid/microgrid/trajectory/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/trajectory/base.py b/src/pymgrid/microgrid/trajectory/base.py
index eea66a7..c16d441 100644
--- a/src/pymgrid/microgrid/trajectory/base.py
+++ b/src/pymgrid/microgrid/trajectory/base.py
@@ -18,7 +18,7 @@ class BaseTrajectory(yaml.YAMLObject):
 
     def __repr__(self):
         params = inspect.signature(self.__init__).parameters
-        formatted_params = ', '.join([f'{p}={getattr(self, p)}' for p in params])
+        formatted_params = ', '.join([f'{p}={getattr(self, p)}' for p in params if hasattr(self, p)])
         return f'{self.__class__.__name__}({formatted_params})'
 
     def __eq__(self, other):
-- 
2.43.0


From 26b2c2fa2ac8b946376d3040cca9cd6189c8a038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:14 +0000
Subject: [PATCH 26/38] fix: converting one grid to a flex or fixed module
 converted every grid

---
 src/pymgrid/modules/grid_module.py      | 16 ++++++++++++++--
 src/pymgrid/modules/module_container.py |  6 +++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/pymgrid/modules/grid_module.py b/src/pymgrid/modules/grid_module.py
index 03b32c9..cbc570c 100644
--- a/src/pymgrid/modules/grid_module.py
+++ b/src/pymgrid/modules/grid_module.py
@@ -234,7 +234,7 @@ class GridModule(BaseTimeSeriesMicrogridModule):
         Flex modules do not require a control to be passed, and are deployed as necessary to balance load and demand.
 
         """
-        self.__class__.module_type = (self.__class__.module_type[0], 'flex')
+        self.module_type = (self.module_type[0], 'flex')
 
     def as_fixed(self):
         """
@@ -243,7 +243,7 @@ class GridModule(BaseTimeSeriesMicrogridModule):
         Flex modules require a control to be passed.
 
         """
-        self.__class__.module_type = (self.__class__.module_type[0], 'fixed')
+        self.module_type = (self.module_type[0], 'fixed')
 
     @property
     def import_price(self):
@@ -348,5 +348,17 @@ class GridModule(BaseTimeSeriesMicrogridModule):
         """
         return self._time_series[:, -1].min() < 1
 
+    def serializable_state_attributes(self):
+        attrs = super().serializable_state_attributes()
+        return attrs + ['module_type'] if 'module_type' in self.__dict__ else attrs
+
+    def deserialize(self, serialized_dict):
+        if 'module_type' in serialized_dict:
+            self.module_type = None
+        super().deserialize(serialized_dict)
+        if 'module_type' in serialized_dict:
+            self.module_type = tuple(serialized_dict['module_type'])
+        return self
+
     def __repr__(self):
         return f'GridModule(max_import={self.max_import}, max_export={self.max_export})'
diff --git a/src/pymgrid/modules/module_container.py b/src/pymgrid/modules/module_container.py
index 95da642..4faacd0 100644
--- a/src/pymgrid/modules/module_container.py
+++ b/src/pymgrid/modules/module_container.py
@@ -366,10 +366,10 @@ def get_subcontainers(modules):
     for module in modules:
         try:  # module is a tuple
             module_name, module = module
-            fixed_flex_controllable = module.__class__.module_type[1]
+            fixed_flex_controllable = module.module_type[1]
         except TypeError:  # module is a module
             try:
-                module_name, fixed_flex_controllable = module.__class__.module_type
+                module_name, fixed_flex_controllable = module.module_type
             except TypeError:
                 raise NotImplementedError(
                     f'Must define the class attribute module_type for class {module.__class__.__name__}')
@@ -387,7 +387,7 @@ def get_subcontainers(modules):
         elif fixed_flex_controllable == 'controllable':
             d = controllable
         else:
-            raise TypeError(f'Cannot parse fixed_flex_controllable from module type {module.__class__.module_type}')
+            raise TypeError(f'Cannot parse fixed_flex_controllable from module type {module.module_type}')
 
         module_type = (fixed_flex_controllable, source_sink_both)
         if module_names.setdefault(module_name, module_type) != module_type:
-- 
2.43.0


From 34d204ce3df338eef26478e923255064feedd827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:37 +0000
Subject: [PATCH 27/38] fix: an action outside the discrete action space was
 logged before it was rejected

---
 src/pymgrid/envs/discrete/discrete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/envs/discrete/discrete.py b/src/pymgrid/envs/discrete/discrete.py
index 5e744fc..6be3899 100644
--- a/src/pymgrid/envs/discrete/discrete.py
+++ b/src/pymgrid/envs/discrete/discrete.py
@@ -138,8 +138,8 @@ class DiscreteMicrogridEnv(BaseMicrogridEnv, PriorityListAlgo):
             Additional information from this step.
 
         """
-        self._microgrid_logger.log(action=action)
         microgrid_action = self._get_action(action)
+        self._microgrid_logger.log(action=action)
         return super().step(microgrid_action, normalized=False)
 
     def sample_action(self, strict_bound=False, sample_flex_modules=False):
-- 
2.43.0


From 9d53cc7b7c1218c8a8427abd8424fae81cf8d466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:37 +0000
Subject: [PATCH 28/38] fix: rule-based control rejected every priority list
 passed as a list

---
 src/pymgrid/algos/rbc/rbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/rbc/rbc.py b/src/pymgrid/algos/rbc/rbc.py
index f912d75..99a2141 100644
--- a/src/pymgrid/algos/rbc/rbc.py
+++ b/src/pymgrid/algos/rbc/rbc.py
@@ -37,7 +37,7 @@ class RuleBasedControl(PriorityListAlgo):
         if priority_list is None:
             return sorted(priority_lists[0])
 
-        if priority_list not in priority_lists:
+        if tuple(priority_list) not in priority_lists:
             raise ValueError('Invalid priority list. Use RuleBasedControl.get_priority_lists to view all '
                              'valid priority lists.')
 
-- 
2.43.0


From 7dff755fa8c6cc2da93be1d4b42dd01a7208efcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:48 +0000
Subject: [PATCH 29/38] fix: priority lists asked a must-run genset for nothing
 once the load was met

---
 .../algos/priority_list/priority_list.py      | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/pymgrid/algos/priority_list/priority_list.py b/src/pymgrid/algos/priority_list/priority_list.py
index 2bbedae..e87fc92 100644
--- a/src/pymgrid/algos/priority_list/priority_list.py
+++ b/src/pymgrid/algos/priority_list/priority_list.py
@@ -89,14 +89,14 @@ class PriorityListAlgo:
                     action[module_name][module_number] = [module_action_number]
 
             if np.isclose(remaining_load, 0.0, atol=1e-4):
-                # Don't need to do anything
-                module_energy = 0.0
+                # Don't need to do anything, other than what the module has to produce
+                _, module_energy = self._get_production_limits(module_action_number, module_to_deploy)
             elif remaining_load > 0:
                 # Need to produce
                 module_energy = self._produce_from_module(module_action_number, module_to_deploy, remaining_load)
             else:
                 # Need to consume. These are sources and sources_and_sinks, so need to only use sources_and_sinks.
-                module_energy = self._consume_in_module(module_to_deploy, remaining_load)
+                module_energy = self._consume_in_module(module_action_number, module_to_deploy, remaining_load)
 
             try:
                 action[module_name][module_number].append(module_energy)
@@ -115,7 +115,7 @@ class PriorityListAlgo:
 
         return action
 
-    def _consume_in_module(self, module_to_deploy, remaining_load):
+    def _consume_in_module(self, module_action_number, module_to_deploy, remaining_load):
         module_max_consumption = module_to_deploy.max_consumption
 
         assert remaining_load <= 0.0
@@ -129,18 +129,16 @@ class PriorityListAlgo:
             else:
                 # Can consume all
                 module_consumption = remaining_load
-        else:  # Not a sink
-            module_consumption = 0.0
 
-        assert module_consumption <= 0
+            assert module_consumption <= 0
+        else:  # Not a sink. Can't do more than keep production as low as possible.
+            _, module_consumption = self._get_production_limits(module_action_number, module_to_deploy)
+
         return module_consumption
 
     def _produce_from_module(self, module_action_number, module_to_deploy, remaining_load):
-        try:
-            max_production = module_to_deploy.next_max_production(module_action_number)
-            min_production = module_to_deploy.next_min_production(module_action_number)
-        except AttributeError:
-            max_production, min_production = module_to_deploy.max_production, module_to_deploy.min_production
+        max_production, min_production = self._get_production_limits(module_action_number, module_to_deploy)
+
         if min_production <= remaining_load <= max_production:
             # Module can meet demand
             module_production = remaining_load
@@ -154,6 +152,15 @@ class PriorityListAlgo:
         assert module_production >= 0
         return module_production
 
+    def _get_production_limits(self, module_action_number, module_to_deploy):
+        try:
+            max_production = module_to_deploy.next_max_production(module_action_number)
+            min_production = module_to_deploy.next_min_production(module_action_number)
+        except AttributeError:
+            max_production, min_production = module_to_deploy.max_production, module_to_deploy.min_production
+
+        return max_production, min_production
+
     def _get_load(self):
         loads = dict()
         total_load = 0.0
-- 
2.43.0


From ecb276f379aa7c14ae99daabe338b1ada5163b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:24 +0000
Subject: [PATCH 30/38] fix: without a grid the legacy state of charge followed
 the request instead of the actual production

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 1d98207..943d184 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -655,7 +655,7 @@ class NonModularMicrogrid:
 
             self._df_record_cost = self._record_cost({ i:self._df_record_actual_production[i][-1] for i in self._df_record_actual_production},
                                                      self._df_record_cost, self._df_record_co2)
-            self._df_record_state = self._update_status(control_dict,
+            self._df_record_state = self._update_status({key: value[-1] for key, value in self._df_record_actual_production.items()},
                                                         self._df_record_state, self._next_load, self._next_pv)
 
         if self._tracking_timestep == self._data_length - self.horizon or self._tracking_timestep == self._data_length - 1:
-- 
2.43.0


From a19809bc3e929559e9b16b41835a552948c6012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:39 +0000
Subject: [PATCH 31/38] fix: the legacy step failed when the load was met
 exactly without pv

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 943d184..d5347cb 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -1059,7 +1059,7 @@ class NonModularMicrogrid:
             pv_curtailed = 0
             overgeneration = 0
 
-        elif 0 < pv_required < pv_available:                # curtail pv
+        elif 0 <= pv_required < pv_available:               # curtail pv
             pv_consumed = pv_required
             loss_load = 0
             pv_curtailed = pv_available-pv_required
-- 
2.43.0


From 8937c272637346d8b23dc5f2f8a6439de4106043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:52 +0000
Subject: [PATCH 32/38] fix: the legacy state after the first step repeated the
 grid prices and status of that step

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index d5347cb..2a8b71f 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -363,10 +363,10 @@ class NonModularMicrogrid:
             self._grid_price_export=parameters['grid_price_export']
             self._grid_co2 = parameters['grid_co2']
 
-            self._next_grid_status = self._grid_status_ts.iloc[0, 0]
-            self._next_grid_price_export = self._grid_price_export.iloc[0, 0]
-            self._next_grid_price_import = self._grid_price_import.iloc[0, 0]
-            self._next_grid_co2 = self._grid_co2.iloc[0, 0]
+            self._next_grid_status = self._grid_status_ts.iloc[1, 0]
+            self._next_grid_price_export = self._grid_price_export.iloc[1, 0]
+            self._next_grid_price_import = self._grid_price_import.iloc[1, 0]
+            self._next_grid_co2 = self._grid_co2.iloc[1, 0]
 
         # those dataframe record what is happening at each time step
         self._df_record_control_dict=parameters['df_actions']
-- 
2.43.0


From 8c34a60c3344f62cb0eb64339c7ec61b9afc160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:05 +0000
Subject: [PATCH 33/38] fix: the legacy simulator imported from and exported to
 the grid during outages

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 2a8b71f..94d1925 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -932,7 +932,7 @@ class NonModularMicrogrid:
 
         return p_genset
 
-    def _check_constraints_grid(self, p_import, p_export):
+    def _check_constraints_grid(self, p_import, p_export, grid_status=1):
         """ This function checks that the constraints of the grid are respected."""
         if p_import < 0:
             p_import = 0
@@ -945,11 +945,11 @@ class NonModularMicrogrid:
             #print ('cannot import and export at the same time')
             #todo how to deal with that?
 
-        if p_import > self.parameters['grid_power_import'].values[0]:
-            p_import = self.parameters['grid_power_import'].values[0]
+        if p_import > self.parameters['grid_power_import'].values[0] * grid_status:
+            p_import = self.parameters['grid_power_import'].values[0] * grid_status
 
-        if p_export > self.parameters['grid_power_export'].values[0]:
-            p_export = self.parameters['grid_power_export'].values[0]
+        if p_export > self.parameters['grid_power_export'].values[0] * grid_status:
+            p_export = self.parameters['grid_power_export'].values[0] * grid_status
 
         return p_import, p_export
 
@@ -1032,7 +1032,8 @@ class NonModularMicrogrid:
 
         if has_grid:
             p_import, p_export = self._check_constraints_grid(control_dict['grid_import'],
-                                                                    control_dict['grid_export'])
+                                                                    control_dict['grid_export'],
+                                                                    status['grid_status'][-1])
             production_dict['grid_import'].append(p_import)
             production_dict['grid_export'].append(p_export)
 
-- 
2.43.0


From 5a5571088e66bba08c1719f077ccec560ecc558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:19 +0000
Subject: [PATCH 34/38] fix: conversion to a legacy microgrid negated the load
 series

---
 src/pymgrid/convert/to_nonmodular_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 9cb8603..72d4e33 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -77,7 +77,7 @@ def add_params_from_module(module, params_dict):
 
 
 def add_load_params(load_module, params_dict):
-    params_dict['load'] = pd.DataFrame(load_module.time_series)
+    params_dict['load'] = pd.DataFrame(-1 * load_module.time_series)
     _add_to_parameters(params_dict,
                        load=-1 * load_module.min_act)
     _add_to_control_dict(params_dict, 'load')
-- 
2.43.0


From 0d4937683670338d21dfbe00ca4f9720bd3b8a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:55 +0000
Subject: [PATCH 35/38] fix: a legacy microgrid converted from one without
 genset and grid could not be run

---
 src/pymgrid/convert/to_nonmodular_ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 72d4e33..a27ce07 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -56,6 +56,9 @@ def check_viability(modular):
 
 
 def finalize_params(params_dict):
+    if 'cost_co2' not in params_dict['parameters']:
+        _add_cost_co2(params_dict, 0.0)
+
     params_dict['parameters'] = pd.DataFrame(params_dict['parameters'])
 
 
-- 
2.43.0


From db41ed7bae23464da9034bd27e8e8b08d8f97928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:25 +0000
Subject: [PATCH 36/38] fix: the legacy state after a reset to the test set
 showed the first training step

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 94d1925..ad34eb3 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -841,6 +841,11 @@ class NonModularMicrogrid:
                 self._data_length = min(self._load_ts.shape[0], self._pv_ts.shape[0])
 
         self.update_variables()
+        self._df_record_state.update(load=[self.load], pv=[self.pv])
+        if self.architecture['grid'] == 1:
+            self._df_record_state.update(grid_status=[self.grid.status], grid_co2=[self.grid.co2],
+                                         grid_price_import=[self.grid.price_import],
+                                         grid_price_export=[self.grid.price_export])
         self.done = False
 
 
-- 
2.43.0


From af2c06a24bbfdb31ec8a1f4d7762140c4407f274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:47 +0000
Subject: [PATCH 37/38] fix: keep the energy totals of a step apart from the
 modules' information

A module named like an information key of another module (curtailment,
co2_production) got that module's values mixed into its own information, and one
named provided_energy or absorbed_energy lost its entry.
---
 src/pymgrid/microgrid/utils/step.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pymgrid/microgrid/utils/step.py b/src/pymgrid/microgrid/utils/step.py
index 17e0419..dc35b44 100644
--- a/src/pymgrid/microgrid/utils/step.py
+++ b/src/pymgrid/microgrid/utils/step.py
@@ -8,7 +8,8 @@ class MicrogridStep:
         self._obs = dict()
         self._reward = 0.0
         self._done = False
-        self._info = dict(absorbed_energy=[], provided_energy=[])
+        self._info = dict()
+        self._energy = dict(absorbed_energy=[], provided_energy=[])
 
     def append(self, module_name, obs, reward, done, info):
         try:
@@ -26,13 +27,13 @@ class MicrogridStep:
 
         for key, value in info.items():
             try:
-                self._info[key].append(value)
+                self._energy[key].append(value)
             except KeyError:
                 pass
 
     def balance(self):
-        provided_energy = np.sum(self._info['provided_energy'])
-        absorbed_energy = np.sum(self._info['absorbed_energy'])
+        provided_energy = np.sum(self._energy['provided_energy'])
+        absorbed_energy = np.sum(self._energy['absorbed_energy'])
         return provided_energy, absorbed_energy, self._reward, self.shaped_reward()
 
     def output(self):
@@ -46,7 +47,7 @@ class MicrogridStep:
         return self._reward
 
     def _output_info(self):
-        return {k: v for k, v in self._info.items() if k not in ('absorbed_energy', 'provided_energy')}
+        return self._info.copy()
 
     @property
     def obs(self):
-- 
2.43.0


From adb13d396882d3e5bc4009534672c979de38a1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:01 +0000
Subject: [PATCH 38/38] fix: resize the increasing noise of a Gaussian
 forecaster when the forecast horizon changes

---
 src/pymgrid/forecast/forecaster.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index dd8d75b..91f8333 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -231,16 +231,30 @@ class GaussianNoiseForecaster(Forecaster):
         self.increase_uncertainty = increase_uncertainty
         self.relative_noise = relative_noise
 
-        self._noise_size = self._forecast_shaped_space.shape
-        self._noise_std = self._get_noise_std(time_series)
+        self._scalar_noise_std = self._get_scalar_noise_std(time_series)
+        self._set_noise_std()
 
-    def _get_noise_std(self, time_series):
+    def _get_scalar_noise_std(self, time_series):
         scalar_val = self.input_noise_std
         if self.relative_noise:
             if time_series is None:
                 raise ValueError('Must pass time_series if relative_noise is True.')
             scalar_val *= np.abs(time_series.mean())
 
+        return scalar_val
+
+    def _set_noise_std(self):
+        self._noise_size = self._forecast_shaped_space.shape
+        self._noise_std = self._get_noise_std()
+
+    @Forecaster.observation_space.setter
+    def observation_space(self, value):
+        Forecaster.observation_space.fset(self, value)
+        self._set_noise_std()
+
+    def _get_noise_std(self):
+        scalar_val = self._scalar_noise_std
+
         if self.increase_uncertainty:
             return scalar_val * np.outer(
                 1 + np.log(1 + np.arange(self._noise_size[0])),
-- 
2.43.0

