From c714fea96b858b8bf5603df3f91e5f44604f7959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 01/42] fix: seed the random generator before the peak time
 range is drawn, and accept 0 as a seed

---
 ramp/core/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 1578c93..4bc60f2 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -105,13 +105,14 @@ class UseCase:
         self.add_user(users)
 
         self.collect_appliances_from_users()
-        if self.date_start is not None and self.date_end is not None:
-            self.initialize()
 
-        # Set global random seed if it is specified
-        if self.random_seed:
+        # Set global random seed if it is specified, before any random number is drawn by initialize()
+        if self.random_seed is not None:
             random.seed(self.random_seed)
 
+        if self.date_start is not None and self.date_end is not None:
+            self.initialize()
+
     @property
     def date_start(self):
         """Start date of the daily profiles generated by the UseCase instance"""
-- 
2.43.0


From a875a5460c490663044edc1ae8a0c0267776f1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 02/42] fix: draw the daily preference and seed every task in
 parallel processing

Appliances with a pref_index were never switched on in parallel mode, results
were not reproducible with random_seed, and a usecase without any task raised
a KeyError
---
 ramp/core/core.py | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 4bc60f2..591ab15 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -38,7 +38,11 @@ from ramp.errors_logs.errors import InvalidType, InvalidWindow
 
 
 def single_appliance_daily_load_profile(args):
-    app, args = args
+    app, args, daily_pref, seed = args
+    # the task carries the preference of the single user for that day, as well as its own seed,
+    # as neither the User instance nor the random generator are shared between processes
+    random.seed(seed)
+    app.user.rand_daily_pref = daily_pref
     app.generate_load_profile(*args, power=app.power[args[0]])
 
     return args[0], app.daily_use
@@ -481,12 +485,24 @@ class UseCase:
         for day_idx, day in enumerate(self.days):
             day_type = get_day_type(day)
             for user in self.users:
-                for app in user.App_list:
-                    for _ in range(user.num_users):
+                for _ in range(user.num_users):
+                    daily_pref = (
+                        0
+                        if user.user_preference == 0
+                        else random.randint(1, user.user_preference)
+                    )
+                    for app in user.App_list:
                         t = t + 1
-                        tasks.append((app, (day_idx, self.peak_time_range, day_type)))
+                        tasks.append(
+                            (
+                                app,
+                                (day_idx, self.peak_time_range, day_type),
+                                daily_pref,
+                                random.getrandbits(64),
+                            )
+                        )
 
-        daily_profiles_dict = {}
+        daily_profiles = np.zeros((self.num_days, 1440))
         timeout = 1
 
         with multiprocessing.Pool(max_parallel_processes) as pool:
@@ -495,23 +511,13 @@ class UseCase:
                 desc=f"Computing appliances profiles",
                 unit="unit",
             ) as pbar:
-                imap_unordered_it = pool.imap_unordered(
+                # the results are summed in the order of the tasks, the sum of floats depends on it
+                for prof_i, daily_load in pool.imap(
                     single_appliance_daily_load_profile, tasks, chunksize=4
-                )
-                for prof_i, daily_load in imap_unordered_it:
-                    if prof_i in daily_profiles_dict:
-                        daily_profiles_dict[prof_i].append(daily_load)
-                    else:
-                        daily_profiles_dict[prof_i] = [daily_load]
+                ):
+                    daily_profiles[prof_i, :] += daily_load
                     pbar.update()
 
-            daily_profiles = np.zeros((self.num_days, 1440))
-
-            for day_idx in range(self.num_days):
-                daily_profiles[day_idx, :] = np.vstack(
-                    daily_profiles_dict[day_idx]
-                ).sum(axis=0)
-
         if flat is True:
             answer = daily_profiles.reshape(1, self.num_days * 1440).squeeze()
         else:
-- 
2.43.0


From 75b6622690114d8dade9843f866b2f861a82483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 03/42] fix: forced reinitialization takes new date_start and
 date_end into account

---
 ramp/core/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 591ab15..e27d41b 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -237,6 +237,9 @@ class UseCase:
                     f"The usecase '{self.name}' is already initialized but argument `force=True` was provided, reinitializing..."
                 )
                 self.days = None
+                if self.date_start is not None and self.date_end is not None:
+                    # the dates might have been changed since last initialization
+                    self.__num_days = None
 
             if num_days is not None:
                 self.__num_days = num_days
-- 
2.43.0


From 5867366f8ec21a2fc3cd21c8b2f278678d822049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 04/42] fix: check the power values of appliances of users
 added after the usecase was created

---
 ramp/core/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index e27d41b..a6e6470 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -311,6 +311,7 @@ class UseCase:
                 )
 
             # Verify that each appliance has long enough power data for the simulated time
+            self.collect_appliances_from_users()
             for app in self.appliances:
                 app.check_power_values(self.__num_days)
 
-- 
2.43.0


From 2120093aee2fed3fa6b1520e903f0a5aa471783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 05/42] fix: a failed initialization leaves the usecase
 uninitialized instead of prompting for days on the next one

---
 ramp/core/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index a6e6470..b634b82 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -312,8 +312,14 @@ class UseCase:
 
             # Verify that each appliance has long enough power data for the simulated time
             self.collect_appliances_from_users()
-            for app in self.appliances:
-                app.check_power_values(self.__num_days)
+            try:
+                for app in self.appliances:
+                    app.check_power_values(self.__num_days)
+            except ValueError:
+                # leave the usecase uninitialized so that initialize() can be called again
+                self.days = None
+                self.__num_days = None
+                raise
 
             if peak_enlarge is not None:
                 self.peak_enlarge = peak_enlarge
-- 
2.43.0


From 5b3e282094964f9b8ec25739872ae1bf4a084cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 06/42] fix: maximum profile of an appliance does not depend on
 the load profiles generated earlier

---
 ramp/core/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index b634b82..118884a 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1612,7 +1612,10 @@ class Appliance:
             It assumes the appliance is always switched-on with maximum power and
             numerosity during all of its potential windows of use
         """
-        return self.daily_use * np.mean(self.power) * self.number
+        windows_mask = np.zeros(1440)
+        for window in (self.window_1, self.window_2, self.window_3):
+            windows_mask[window[0] : window[1]] = 1
+        return windows_mask * np.mean(self.power) * self.number
 
     def specific_cycle(self, cycle_num, **kwargs):
         """assigining specific duty cycle for the appliance (maximum of three cycles can be assigned)
-- 
2.43.0


From 1908b97b7357937f65ecf0fd59ff98bdad87ac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 07/42] fix: peak time range of a peak window of a single
 minute

---
 ramp/core/core.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 118884a..06d44d0 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -378,9 +378,7 @@ class UseCase:
         for user in self.users:
             tot_max_profile = tot_max_profile + user.maximum_profile
         # Find the peak window within the theoretical max profile
-        peak_window = np.squeeze(
-            np.argwhere(tot_max_profile == np.amax(tot_max_profile))
-        )
+        peak_window = np.flatnonzero(tot_max_profile == np.amax(tot_max_profile))
         # Within the peak_window, randomly calculate the peak_time using a gaussian distribution
         peak_time = round(
             random.normalvariate(
-- 
2.43.0


From 26d36abe70f90a1ba50938d104ffcb54020993b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 08/42] fix: randomised windows of use never end before they
 start

---
 ramp/core/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 06d44d0..6d87f08 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1597,6 +1597,9 @@ class Appliance:
             rand_window[0] = window_range_limits[0]
         if rand_window[1] > window_range_limits[1]:
             rand_window[1] = window_range_limits[1]
+        if rand_window[1] < rand_window[0]:
+            # with a large variability the start can be drawn after the end, no time is left in that case
+            rand_window[1] = rand_window[0]
 
         return rand_window
 
-- 
2.43.0


From de8df8229f90450b15a7504fcef2832004fc44f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 09/42] fix: func_cycle of 0 or given as a float can be
 simulated

---
 ramp/core/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 6d87f08..4edc68f 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1167,7 +1167,8 @@ class Appliance:
 
         self.func_time = func_time
         self.time_fraction_random_variability = time_fraction_random_variability
-        self.func_cycle = func_cycle
+        # switch-on events last a whole number of minutes, and one minute at least
+        self.func_cycle = max(1, math.ceil(func_cycle))
         self.fixed = fixed
         self.fixed_cycle = fixed_cycle
         self.continuous_duty_cycle = continuous_duty_cycle
-- 
2.43.0


From 2afaed332ab87574639084470295d18ac2691970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 10/42] fix: an appliance declared with number 0 is never
 switched on instead of raising ZeroDivisionError

---
 ramp/core/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 4edc68f..afcd6f2 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -2005,7 +2005,9 @@ class Appliance:
 
         # skip this appliance in any of the following applies
         if (
-            random.uniform(0, 1) > self.occasional_use
+            # there is no appliance to switch on
+            self.number == 0
+            or random.uniform(0, 1) > self.occasional_use
             # evaluates if daily preference coincides with the randomised daily preference number
             or (self.pref_index != 0 and self.user.rand_daily_pref != self.pref_index)
             # checks if the app is allowed in the given yearly behaviour pattern
-- 
2.43.0


From 9dab97898026bafadbbf381763846a28f07d5084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 11/42] fix: a power timeseries ending with its first value is
 not saved as a constant

---
 ramp/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index afcd6f2..82ed7f9 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1270,7 +1270,7 @@ class Appliance:
                     dm[attribute + "_end"] = window_value[1]
                 elif attribute == "power":
                     power_values = getattr(self, attribute)
-                    if np.diff(power_values).sum() == 0:
+                    if (power_values == power_values[0]).all():
                         power_values = power_values[0]
                     else:
                         power_values = power_values.tolist()
@@ -1287,7 +1287,7 @@ class Appliance:
                         dm[attribute + "_end"] = window_value[1]
                     elif old_attribute == "POWER":
                         power_values = getattr(self, old_attribute)
-                        if np.diff(power_values).sum() == 0:
+                        if (power_values == power_values[0]).all():
                             power_values = power_values[0]
                         else:
                             power_values = power_values.tolist()
-- 
2.43.0


From 020b07de698691501f51e6559e2a5963e5f9c5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 12/42] fix: read the values and not the timestamps of a two
 columns power timeseries, at full precision

---
 ramp/core/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 82ed7f9..a20433f 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1184,7 +1184,8 @@ class Appliance:
             power = power.values[:, 0]
 
         elif isinstance(power, str):
-            power = pd.read_json(power).values[:, 0]
+            # the last column contains the values, if a first one is provided it contains the timestamps
+            power = pd.read_json(power, precise_float=True).values[:, -1]
 
         elif isinstance(power, (float, int)):
             power = power * np.ones(self.user.num_days + 1)
-- 
2.43.0


From c87b6b17d4a17ad260cd8215787f524087cc5523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 13/42] fix: empty optional cells of an input file fall back to
 the default values of the arguments

---
 ramp/core/core.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index a20433f..ae4881a 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -613,7 +613,9 @@ class UseCase:
                     "'user_preference' should be the same for a given user profile"
                 )
 
-            # create user and add it to usecase
+            # create user and add it to usecase, an empty cell means that the default value is used
+            num_users = 1 if pd.isna(num_users) else int(num_users)
+            user_preference = 0 if pd.isna(user_preference) else int(user_preference)
             user = User(user_name, num_users, user_preference)
             self.add_user(user)
             # itereate through the lines of the DataFrame, each line representing one Appliance instance
@@ -623,8 +625,13 @@ class UseCase:
                 # assign Appliance arguments
                 appliance_parameters = {}
                 for k in APPLIANCE_ARGS:
-                    if k in row:
+                    # an empty cell means that the default value of the argument is used
+                    if k in row and not pd.isna(row[k]):
                         appliance_parameters[k] = row[k]
+                        if k != "power" and isinstance(row[k], float):
+                            # empty cells turn the integers of their column into floats
+                            if row[k].is_integer():
+                                appliance_parameters[k] = int(row[k])
 
                 # assign windows arguments
                 for k in WINDOWS_PARAMETERS:
-- 
2.43.0


From b2602d695d914ce312a4d900d0135a2547627920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 14/42] fix: generate the profile of a user bounded to a
 usecase which is not initialized yet

---
 ramp/core/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index ae4881a..ee15085 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1020,6 +1020,7 @@ appliances: no appliances assigned to the user.
                     "You are generating ramp demand from a User not bounded to a UseCase instance, a default one has been created for you "
                 )
                 UseCase(name=f"{self.user_name} default usecase", users=[self])
+            if self.usecase.peak_time_range is None:
                 self.usecase.peak_time_range = self.usecase.calc_peak_time_range()
             peak_time_range = self.usecase.peak_time_range
 
-- 
2.43.0


From 6a0383a390eda2520005186a4a73d0ac56061e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 15/42] fix: duty cycle windows which are not declared do not
 claim the first minute of the day

---
 ramp/core/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index cac6936..c1231d9 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -145,7 +145,11 @@ def range_within_window(range_low, range_high, window):
     range boundaries are both lower than the lowest window value or both
     higher than the highest window value
 
+    A window which was not declared is empty and does not overlap with anything
+
     """
+    if window[0] == window[1]:
+        return False
     return not (
         (range_low < window[0] and range_high < window[0])
         or (range_low > window[1] and range_high > window[1])
-- 
2.43.0


From 2571b53b5c85a1722dfe79f69ae4d0c09f44d978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 16/42] fix: compare appliances whose power timeseries have
 different lengths

---
 ramp/core/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index ee15085..5a833ea 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1344,7 +1344,9 @@ class Appliance:
             if hasattr(self, attribute) and hasattr(other_appliance, attribute):
                 answer = np.append(
                     answer,
-                    [getattr(self, attribute) == getattr(other_appliance, attribute)],
+                    np.array_equal(
+                        getattr(self, attribute), getattr(other_appliance, attribute)
+                    ),
                 )
             elif (
                 hasattr(self, attribute) is False
-- 
2.43.0


From 972b3130c4da30874afc2a6a92e48013c74cab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 17/42] fix: appliances with the same constant power are equal
 whatever the number of simulated days

---
 ramp/core/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 5a833ea..d76f94b 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1341,7 +1341,13 @@ class Appliance:
         """
         answer = np.array([])
         for attribute in APPLIANCE_ATTRIBUTES:
-            if hasattr(self, attribute) and hasattr(other_appliance, attribute):
+            if attribute == "power" and (
+                getattr(self, "_Appliance__constant_power", False)
+                and getattr(other_appliance, "_Appliance__constant_power", False)
+            ):
+                # the number of times a constant power is repeated depends on the usecase
+                answer = np.append(answer, self.power[0] == other_appliance.power[0])
+            elif hasattr(self, attribute) and hasattr(other_appliance, attribute):
                 answer = np.append(
                     answer,
                     np.array_equal(
-- 
2.43.0


From 404918757537b0cde1d0c1f1dd5b2f75deb8d3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 18/42] fix: stop looking for a switch-on event when no duty
 cycle window can be reached, instead of recursing forever

---
 ramp/core/core.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index d76f94b..db4008f 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1856,7 +1856,7 @@ class Appliance:
             )
         return rand_time
 
-    def rand_switch_on_window(self, rand_time: int):
+    def rand_switch_on_window(self, rand_time: int, possible_starts: List = None):
         """Identifies a random switch on window within the available functioning windows
 
         This corresponds to step 2c. of:
@@ -1872,6 +1872,8 @@ class Appliance:
                 indexes_choice += [
                     *range(s.start, s.stop - self.func_cycle + 1)
                 ]  # this will be fast with cython
+        if possible_starts is not None:
+            indexes_choice = possible_starts
         n_choices = len(indexes_choice)
         if n_choices > 0:
             # Identifies a random switch on time within the available functioning windows
@@ -1947,7 +1949,20 @@ class Appliance:
                         + str(self.cw32)
                         + ". Picking another random switch on event. You probably see this warning because your window of use is the same as the duty cycle window and the random variability of the windows of use is greater than zero. If you see this warning only once, no need to worry, this is inherent to stochasticity."
                     )
-                    return self.rand_switch_on_window(rand_time)
+                    # only keep the starting times from which a duty cycle window can be reached,
+                    # there might be none left
+                    reachable = [
+                        i
+                        for fs in self.free_spots
+                        for i in indexes_choice
+                        if fs.start <= i < fs.stop
+                        and any(
+                            range_within_window(i, min(i + rand_time, fs.stop) - 1, cw)
+                            for cw in (self.cw11, self.cw12, self.cw21)
+                            + (self.cw22, self.cw31, self.cw32)
+                        )
+                    ]
+                    return self.rand_switch_on_window(rand_time, reachable)
 
                 if (
                     indexes.size > duty_cycle_duration
-- 
2.43.0


From 9acf42b37c0a2414bbd8949d91016fb7c572696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 19/42] fix: a switch-on event of one minute at the beginning
 of a window is not booked on the window ending at that minute

---
 ramp/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index db4008f..805198b 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1541,7 +1541,7 @@ class Appliance:
         # identify which of the unallocated time ranges contain the switch-on event
         spot_idx = None
         for i, fs in enumerate(self.free_spots):
-            if indexes[0] >= fs.start and indexes[-1] <= fs.stop:
+            if indexes[0] >= fs.start and indexes[-1] < fs.stop:
                 spot_idx = i
                 break
         if spot_idx is not None:
-- 
2.43.0


From 885c9f7f0430156a455725239986b711165ccd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 20/42] fix: minutes shared by overlapping randomised windows
 are not allocated to two switch-on events

---
 ramp/core/core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 805198b..275bd4f 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -2087,9 +2087,14 @@ class Appliance:
 
         # steps 2c-2e repeated until the sum of the durations of all the switch-on events equals rand_time
 
-        self.free_spots = [
-            slice(rw[0], rw[1], None) for rw in rand_windows if rw[0] != rw[1]
-        ]
+        # the randomised windows might overlap, no minute should be available twice
+        self.free_spots = []
+        last_stop = 0
+        for start, stop in sorted(rand_windows):
+            start = max(start, last_stop)
+            if start < stop:
+                self.free_spots.append(slice(start, stop, None))
+                last_stop = stop
 
         tot_time = 0
         while tot_time <= rand_time and rand_time != 0:
-- 
2.43.0


From 8a78ad3080880cae1134e735ea58bb1b839963f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 21/42] fix: convert input files given with an absolute path or
 located in another folder

---
 ramp/ramp_convert_old_input_files.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ramp/ramp_convert_old_input_files.py b/ramp/ramp_convert_old_input_files.py
index b8c4525..5133108 100644
--- a/ramp/ramp_convert_old_input_files.py
+++ b/ramp/ramp_convert_old_input_files.py
@@ -1,6 +1,6 @@
 # %% Import required modules
 
-import sys, os, importlib
+import sys, os, importlib, importlib.util
 
 sys.path.append("../")
 import argparse
@@ -95,7 +95,13 @@ def convert_old_user_input_file(
     output_fname = os.path.join(output_path, output_fname)
 
     sys.path.insert(0, os.path.dirname(os.path.abspath(fname_path)))
-    file_module = importlib.import_module(fname)
+    try:
+        file_module = importlib.import_module(fname)
+    except (ModuleNotFoundError, TypeError):
+        # the path does not match the name of a package, the file is loaded directly
+        spec = importlib.util.spec_from_file_location(fname, fname_path)
+        file_module = importlib.util.module_from_spec(spec)
+        spec.loader.exec_module(file_module)
 
     user_list = file_module.User_list
 
-- 
2.43.0


From 7b19e6ef81e687540d7a51ad4ed6df2a39f6273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 22/42] fix: create a Plot from a csv file

---
 ramp/post_process/post_process.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index c0bf98d..b01b335 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -156,9 +156,7 @@ class Plot:
         """
 
         if file.endswith(".csv"):
-            df = pd.read_csv(
-                file, sheet_name=sheet_name, index_col=0, header=0, sep=sep
-            )
+            df = pd.read_csv(file, index_col=0, header=0, sep=sep)
 
         elif file.endswith(".xlsx"):
             df = pd.read_excel(file, sheet_name=sheet_name, index_col=0, header=0)
-- 
2.43.0


From a9891dfff109f2e2814a5943b991db104b00dba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 23/42] fix: shadow plot of a list of columns

---
 ramp/post_process/post_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index b01b335..0c11f29 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -317,7 +317,7 @@ class Plot:
         else:
             df_main = (self.mean()).df["Mean"].to_frame("Average")
 
-        if columns.lower() == "all":
+        if isinstance(columns, str) and columns.lower() == "all":
             columns = self.columns
 
         df_other = self.df.copy()[columns]
-- 
2.43.0


From bb349c534deb990735c26863ade9ea78420b5fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 24/42] fix: compute the peak time range with the loaded users
 when the usecase was initialized before load()

---
 ramp/core/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 275bd4f..7a7fcb3 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -665,6 +665,11 @@ class UseCase:
                 user.add_appliance(**appliance_parameters)
 
         self.collect_appliances_from_users()
+        if self.is_initialized:
+            # account for the new users in what initialize() has set
+            for app in self.appliances:
+                app.check_power_values(self.num_days)
+            self.peak_time_range = self.calc_peak_time_range()
 
 
 class User:
-- 
2.43.0


From c843d53da819d45f112266c13b86d88b4985ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 25/42] fix: results of several input files are not written
 over each other in a single output file

---
 ramp/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/cli.py b/ramp/cli.py
index 394f238..bfc7296 100644
--- a/ramp/cli.py
+++ b/ramp/cli.py
@@ -160,7 +160,7 @@ def main():
             num_days = [None] * len(fnames)
 
         if month_files is False:
-            if len(ofnames) == 1:
+            if ofnames == [None]:
                 ofnames = ofnames * len(fnames)
             elif len(fnames) != len(ofnames):
                 raise ValueError(
-- 
2.43.0


From 304778f7e735a76e87c05ffe208c3e723eaa06c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 26/42] fix: run python input files whose path contains spaces,
 with the running python interpreter

---
 ramp/ramp_run.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramp/ramp_run.py b/ramp/ramp_run.py
index 861f7e4..be8400f 100644
--- a/ramp/ramp_run.py
+++ b/ramp/ramp_run.py
@@ -21,6 +21,7 @@ See the License for the specific language governing permissions and limitations
 under the License.
 """
 import os
+import subprocess
 
 # %% Import required modules
 
@@ -61,7 +62,7 @@ def run_usecase(
             return Profiles_list
     elif fname.endswith(".py"):
         if os.path.exists(fname):
-            os.system(f"python {fname}")
+            subprocess.run([sys.executable, fname])
         else:
             raise FileNotFoundError(f"{fname} is not an existing file")
     else:
-- 
2.43.0


From ea5cae4d839916a24c89113473affdcc38b78805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 27/42] fix: a duty cycle executed once per switch-on event can
 be randomised to a duration of 0

---
 ramp/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 7a7fcb3..58ca31b 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1973,8 +1973,8 @@ class Appliance:
                     indexes.size > duty_cycle_duration
                     and self.continuous_duty_cycle == 0
                 ):
-                    # Limit switch_on_window to duration of duty_cycle
-                    indexes = indexes[0:duty_cycle_duration]
+                    # Limit switch_on_window to duration of duty_cycle, which might be 0 once it is randomised
+                    indexes = indexes[0 : max(1, duty_cycle_duration)]
         else:
             indexes = None
             # there are no available windows anymore
-- 
2.43.0


From 2793ad61283a74f89437bc4ae85ff7d4dc396efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 28/42] fix: a failed initialization (no day to simulate,
 invalid peak_enlarge) leaves the usecase uninitialized

---
 ramp/core/core.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 58ca31b..75aebda 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -273,6 +273,15 @@ class UseCase:
                 )
                 print("Please wait...")
 
+            if self.__num_days < 1:
+                # leave the usecase uninitialized so that initialize() can be called again
+                self.days = None
+                self.__num_days = None
+                self.__datetimeindex = None
+                raise ValueError(
+                    f"There is no day to simulate for the usecase '{self.name}', check num_days, date_start and date_end"
+                )
+
             if self.days is None:
                 # TODO add 24 hours to date end in the display
                 if self.date_start is not None:
@@ -315,16 +324,18 @@ class UseCase:
             try:
                 for app in self.appliances:
                     app.check_power_values(self.__num_days)
-            except ValueError:
+
+                if peak_enlarge is not None:
+                    self.peak_enlarge = peak_enlarge
+                else:
+                    self.peak_time_range = self.calc_peak_time_range()
+            except (TypeError, ValueError):
                 # leave the usecase uninitialized so that initialize() can be called again
                 self.days = None
                 self.__num_days = None
+                self.__datetimeindex = None
                 raise
 
-            if peak_enlarge is not None:
-                self.peak_enlarge = peak_enlarge
-            else:
-                self.peak_time_range = self.calc_peak_time_range()
             # format datetimeindex in minutes
             self.__datetimeindex = pd.date_range(
                 start=self.days[0],
-- 
2.43.0


From 63f755900e7f8ddcf9ee1a9abc631cf356b082c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:20 +0000
Subject: [PATCH 29/42] fix: pick another switch-on event in a loop, the
 recursion limit was reached when few starts lead to a duty cycle window

---
 ramp/core/core.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 75aebda..b6fa244 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1872,7 +1872,7 @@ class Appliance:
             )
         return rand_time
 
-    def rand_switch_on_window(self, rand_time: int, possible_starts: List = None):
+    def rand_switch_on_window(self, rand_time: int):
         """Identifies a random switch on window within the available functioning windows
 
         This corresponds to step 2c. of:
@@ -1881,6 +1881,20 @@ class Appliance:
             Generating high-resolution multi-energy load profiles for remote areas with an open-source stochastic model,
             Energy, 2019, https://doi.org/10.1016/j.energy.2019.04.097.
         """
+        indexes, possible_starts = self._pick_switch_on_window(rand_time)
+        while possible_starts is not None:
+            # the switch on event fell outside of the duty cycle windows
+            indexes, possible_starts = self._pick_switch_on_window(
+                rand_time, possible_starts
+            )
+        return indexes
+
+    def _pick_switch_on_window(self, rand_time: int, possible_starts: List = None):
+        """Picks one switch on window, among the possible starting times if they are provided
+
+        Returns the minutes of the switch on window (None if there is no available window) and None, or None and the
+        starting times among which another switch on window should be picked if it fell outside of the duty cycle windows
+        """
 
         indexes_choice = []
         for s in self.free_spots:
@@ -1978,7 +1992,7 @@ class Appliance:
                             + (self.cw22, self.cw31, self.cw32)
                         )
                     ]
-                    return self.rand_switch_on_window(rand_time, reachable)
+                    return None, reachable
 
                 if (
                     indexes.size > duty_cycle_duration
@@ -1990,7 +2004,7 @@ class Appliance:
             indexes = None
             # there are no available windows anymore
 
-        return indexes
+        return indexes, None
 
     def calc_coincident_switch_on(self, inside_peak_window: bool = True):
         """Computes how many of the 'n' Appliance instance are switched on simultaneously
-- 
2.43.0


From 0ab9fe0ffb3fcb6b7176cd79c9e2a4c1acefaad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:33 +0000
Subject: [PATCH 30/42] fix: read power timeseries from sheets whose name needs
 quotes

---
 ramp/core/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index c1231d9..5b2f53f 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -36,6 +36,9 @@ def read_input_file(filename):
             # the timeseries is provided as a range of values in the spreadsheet
             if "=" in v:
                 ts_sheet_name, ts_range = v.replace("=", "").split("!")
+                # spreadsheet softwares write quotes around names with spaces
+                if ts_sheet_name.startswith("'") and ts_sheet_name.endswith("'"):
+                    ts_sheet_name = ts_sheet_name[1:-1].replace("''", "'")
                 cr = CellRange(ts_range)
                 if cr.size["columns"] == 1:
                     ts = json.dumps(
-- 
2.43.0


From 05bef6f98467635b2be06856787c1a9885aebb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 31/42] fix: refuse power timeseries which contain something
 else than numbers, or more than two columns

---
 ramp/core/utils.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index 5b2f53f..0a2fa5f 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -18,6 +18,15 @@ POSSIBLE_FORMATS = """
 """
 
 
+def _is_power_timeseries(ts):
+    """Whether ts is made of values only, or of pairs of timestamps and values"""
+    if all(isinstance(row, list) for row in ts):
+        if any(len(row) not in (1, 2) for row in ts):
+            return False
+        ts = [row[-1] for row in ts]
+    return all(isinstance(val, (int, float)) and np.isfinite(val) for val in ts)
+
+
 def read_input_file(filename):
     """Parse a RAMP .xlsx input file"""
 
@@ -45,7 +54,8 @@ def read_input_file(filename):
                         [
                             wb[ts_sheet_name].cell(row=c[0], column=c[1]).value
                             for c in cr.cells
-                        ]
+                        ],
+                        default=str,
                     )
                 elif cr.size["columns"] == 2:
                     ts = pd.DataFrame(
@@ -74,7 +84,7 @@ def read_input_file(filename):
             else:
                 try:
                     ts = json.loads(v)
-                    if len(ts) != 366:
+                    if not isinstance(ts, list) or len(ts) != 366:
                         raise (
                             ValueError(
                                 f"The provided power timeseries of the appliance '{appliance_name}' of user '{user_name}' in '{filename}' does not contain 366 values as expected\n{POSSIBLE_FORMATS}"
@@ -87,6 +97,12 @@ def read_input_file(filename):
                             f"Could not parse the power timeseries provided for appliance '{appliance_name}' of user '{user_name}' in '{filename}'\n{POSSIBLE_FORMATS}"
                         )
                     )
+            if not _is_power_timeseries(json.loads(ts)):
+                raise (
+                    ValueError(
+                        f"The power timeseries provided for the appliance '{appliance_name}' of user '{user_name}' in '{filename}' should only contain numbers, in one or two columns\n{POSSIBLE_FORMATS}"
+                    )
+                )
             df.loc[i, "power"] = ts
             df.loc[i, "p_series"] = True
     return df
-- 
2.43.0


From 8c419859ca833e5a1aaa851966ef0e10f79dde01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 32/42] fix: the user_preference column of an input file is
 optional

---
 ramp/core/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index b6fa244..480c973 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -607,6 +607,8 @@ class UseCase:
         """
 
         df = read_input_file(filename=filename)
+        if "user_preference" not in df.columns:
+            df["user_preference"] = np.nan
         for user_name in df.user_name.unique():
             user_df = df.loc[df.user_name == user_name]
             num_users = user_df.num_users.unique()
-- 
2.43.0


From 06437caa3a7b26fd9dbf80093afb80f30bc8fa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 33/42] fix: the option -n is taken into account when two dates
 are given to the command line

---
 ramp/cli.py      | 2 +-
 ramp/ramp_run.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/ramp/cli.py b/ramp/cli.py
index bfc7296..1812823 100644
--- a/ramp/cli.py
+++ b/ramp/cli.py
@@ -187,7 +187,7 @@ def main():
                 month_profiles = run_usecase(
                     fname=fname,
                     ofname=None,
-                    num_days=num_days[i],
+                    num_days=None,
                     date_start=month_start,
                     date_end=month_end,
                     plot=False,
diff --git a/ramp/ramp_run.py b/ramp/ramp_run.py
index be8400f..501441e 100644
--- a/ramp/ramp_run.py
+++ b/ramp/ramp_run.py
@@ -50,7 +50,10 @@ def run_usecase(
         usecase = UseCase(
             date_start=date_start, date_end=date_end, parallel_processing=parallel
         )
-        usecase.initialize(num_days=num_days)
+        # with two dates the usecase is already initialized, num_days days are then simulated from date_start
+        usecase.initialize(
+            num_days=num_days, force=num_days is not None and usecase.is_initialized
+        )
         usecase.load(fname)
         Profiles_list = usecase.generate_daily_load_profiles(flat=False)
 
-- 
2.43.0


From f9165da29136014368890ee70eeb76234d6d9e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:26 +0000
Subject: [PATCH 34/42] fix: convert the given file itself and not a module of
 the same name imported earlier

---
 ramp/ramp_convert_old_input_files.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ramp/ramp_convert_old_input_files.py b/ramp/ramp_convert_old_input_files.py
index 5133108..69d74d2 100644
--- a/ramp/ramp_convert_old_input_files.py
+++ b/ramp/ramp_convert_old_input_files.py
@@ -95,13 +95,10 @@ def convert_old_user_input_file(
     output_fname = os.path.join(output_path, output_fname)
 
     sys.path.insert(0, os.path.dirname(os.path.abspath(fname_path)))
-    try:
-        file_module = importlib.import_module(fname)
-    except (ModuleNotFoundError, TypeError):
-        # the path does not match the name of a package, the file is loaded directly
-        spec = importlib.util.spec_from_file_location(fname, fname_path)
-        file_module = importlib.util.module_from_spec(spec)
-        spec.loader.exec_module(file_module)
+    # the file itself is executed, a module imported earlier might have the same name or have been modified since
+    spec = importlib.util.spec_from_file_location(fname, fname_path)
+    file_module = importlib.util.module_from_spec(spec)
+    spec.loader.exec_module(file_module)
 
     user_list = file_module.User_list
 
-- 
2.43.0


From ec11498ea4d71d919db2f816bb617ef19bcc4893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 35/42] fix: convert files which import from core on several
 lines

---
 ramp/ramp_convert_old_input_files.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ramp/ramp_convert_old_input_files.py b/ramp/ramp_convert_old_input_files.py
index 69d74d2..b5ec62a 100644
--- a/ramp/ramp_convert_old_input_files.py
+++ b/ramp/ramp_convert_old_input_files.py
@@ -61,7 +61,7 @@ def convert_old_user_input_file(
 
     """
 
-    line_to_change = -1
+    lines_to_change = []
 
     # Check if the lines to save the names of the Appliance instances is already there
     # And check if the import of the User class is correct, otherwise adapt the file
@@ -71,14 +71,13 @@ def convert_old_user_input_file(
             keep_names = False
         for i, l in enumerate(lines):
             if "from core import" in l:
-                line_to_change = i
-        # Change import statement by explicitly naming the full package path
-        lines[line_to_change] = lines[line_to_change].replace(
-            "from core import", "from ramp.core.core import"
-        )
+                lines_to_change.append(i)
+        # Change import statements by explicitly naming the full package path
+        for i in lines_to_change:
+            lines[i] = lines[i].replace("from core import", "from ramp.core.core import")
 
     # Modify import statement in file
-    if line_to_change != -1:
+    if lines_to_change:
         with open(fname_path, "w") as fp:
             fp.writelines(lines)
 
-- 
2.43.0


From 35c1bf593425187672804b6594ee14d92d191c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:58 +0000
Subject: [PATCH 36/42] fix: a single row or a single column can be selected
 with Plot.loc and Plot.iloc

---
 ramp/post_process/post_process.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index 0c11f29..4f76387 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -531,7 +531,7 @@ class Plot:
             a Plot object using the index and columns filters
         """
 
-        return Plot(self.DataFrame.loc[index, columns])
+        return self._select(self.DataFrame.loc, index, columns)
 
     def iloc(self, index=slice(None), columns=slice(None)):
         """iloc method to filter the data based on position index
@@ -549,7 +549,20 @@ class Plot:
             a Plot object using the index and columns filters
         """
 
-        return Plot(self.DataFrame.iloc[index, columns])
+        return self._select(self.DataFrame.iloc, index, columns)
+
+    def _select(self, indexer, index, columns):
+        """applies a pandas indexer, a single column or a single row is returned as a Plot as well"""
+        if pd.api.types.is_scalar(columns):
+            columns = [columns]
+
+        selection = indexer[index, columns]
+
+        if isinstance(selection, pd.Series):
+            # a single row has been selected
+            selection = selection.to_frame().T
+
+        return Plot(selection)
 
     def head(self, var):
         """returns the top var numbers of data
-- 
2.43.0


From 350df73500ddabed5558853bd2188e90c7cce70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:18 +0000
Subject: [PATCH 37/42] fix: the converted file keeps the whole name of an
 input file which contains .py in the middle

---
 ramp/ramp_convert_old_input_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/ramp_convert_old_input_files.py b/ramp/ramp_convert_old_input_files.py
index b5ec62a..0ea7409 100644
--- a/ramp/ramp_convert_old_input_files.py
+++ b/ramp/ramp_convert_old_input_files.py
@@ -90,7 +90,7 @@ def convert_old_user_input_file(
 
     if output_path is None:
         output_path = os.path.dirname(fname_path)
-    output_fname = fname_path.split(os.path.sep)[-1].replace(".py", suffix)
+    output_fname = os.path.splitext(os.path.basename(fname_path))[0] + suffix
     output_fname = os.path.join(output_path, output_fname)
 
     sys.path.insert(0, os.path.dirname(os.path.abspath(fname_path)))
-- 
2.43.0


From 05322c09c54db891c50b3da34158513e66ed22d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:34 +0000
Subject: [PATCH 38/42] fix: the sheet referred to by a power timeseries may
 have = or ! in its name

---
 ramp/core/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index 0a2fa5f..9d3d980 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -43,8 +43,9 @@ def read_input_file(filename):
             appliance_name = df["name"].iloc[i]
             user_name = df["user_name"].iloc[i]
             # the timeseries is provided as a range of values in the spreadsheet
-            if "=" in v:
-                ts_sheet_name, ts_range = v.replace("=", "").split("!")
+            if v.strip().startswith("="):
+                # the name of the sheet might contain = or ! as well
+                ts_sheet_name, ts_range = v.strip()[1:].rsplit("!", 1)
                 # spreadsheet softwares write quotes around names with spaces
                 if ts_sheet_name.startswith("'") and ts_sheet_name.endswith("'"):
                     ts_sheet_name = ts_sheet_name[1:-1].replace("''", "'")
-- 
2.43.0


From f2a858409a586ba22b8690a907b07a8f311174d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:13 +0000
Subject: [PATCH 39/42] fix: the shower example finds its data file from any
 working directory

---
 ramp/example/input_file_2.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ramp/example/input_file_2.py b/ramp/example/input_file_2.py
index cbe5906..6301732 100644
--- a/ramp/example/input_file_2.py
+++ b/ramp/example/input_file_2.py
@@ -5,6 +5,7 @@
 Input data definition
 """
 
+import os
 from ramp.core.core import User
 import pandas as pd
 
@@ -21,7 +22,10 @@ the thermal_P_var attribute.
 HH = User(user_name="generic households", num_users=1)
 User_list.append(HH)
 
-HH_shower_P = pd.read_csv("ramp/example/shower_P.csv")
+# the file with the timeseries of the power lies next to this one
+HH_shower_P = pd.read_csv(
+    os.path.join(os.path.dirname(os.path.abspath(__file__)), "shower_P.csv")
+)
 HH_shower = HH.add_appliance(
     number=1,
     power=HH_shower_P,
-- 
2.43.0


From eab13e71fa27ea412d52b20a20ebddfd83601740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:00 +0000
Subject: [PATCH 40/42] fix: series in two columns of a sheet are read with all
 their digits

---
 ramp/core/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index 9d3d980..3f717ec 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -59,16 +59,16 @@ def read_input_file(filename):
                         default=str,
                     )
                 elif cr.size["columns"] == 2:
-                    ts = pd.DataFrame(
+                    ts = json.dumps(
                         [
                             [
                                 wb[ts_sheet_name].cell(row=c[0], column=c[1]).value
-                                for c in col
+                                for c in row
                             ]
-                            for col in cr.cols
-                        ]
-                    ).T
-                    ts = ts.to_json(orient="values")
+                            for row in cr.rows
+                        ],
+                        default=str,
+                    )
                 else:
                     raise (
                         ValueError(
-- 
2.43.0


From fb6d57507f2b468d0a130d7c85244a5dc162d425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:18 +0000
Subject: [PATCH 41/42] fix: calibration parameters are returned in the order
 in which they are used

---
 ramp/core/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/constants.py b/ramp/core/constants.py
index 846a8e9..776aed8 100644
--- a/ramp/core/constants.py
+++ b/ramp/core/constants.py
@@ -17,7 +17,7 @@ def switch_on_parameters():
     s_peak = 0.5  # standard deviation (as percentage of the median value) of the gaussian distribution [0,1] above mentioned
     op_factor = 0.5  # off-peak coincidence calculation parameter
 
-    return mu_peak, s_peak, op_factor
+    return s_peak, mu_peak, op_factor
 
 
 OLD_TO_NEW_MAPPING = {
-- 
2.43.0


From 03b81a5649fd92b89d88479d86abd6ca74a2d29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:37 +0000
Subject: [PATCH 42/42] Revert "fix: the shower example finds its data file
 from any working directory"

This reverts commit f2a858409a586ba22b8690a907b07a8f311174d9.
---
 ramp/example/input_file_2.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ramp/example/input_file_2.py b/ramp/example/input_file_2.py
index 6301732..cbe5906 100644
--- a/ramp/example/input_file_2.py
+++ b/ramp/example/input_file_2.py
@@ -5,7 +5,6 @@
 Input data definition
 """
 
-import os
 from ramp.core.core import User
 import pandas as pd
 
@@ -22,10 +21,7 @@ the thermal_P_var attribute.
 HH = User(user_name="generic households", num_users=1)
 User_list.append(HH)
 
-# the file with the timeseries of the power lies next to this one
-HH_shower_P = pd.read_csv(
-    os.path.join(os.path.dirname(os.path.abspath(__file__)), "shower_P.csv")
-)
+HH_shower_P = pd.read_csv("ramp/example/shower_P.csv")
 HH_shower = HH.add_appliance(
     number=1,
     power=HH_shower_P,
-- 
2.43.0

