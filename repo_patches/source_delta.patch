From e1fc4067acf45510886d3690386cd51bd0bcd176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 01/19] fix: use std::abs so that time differences are not
 truncated to integers

Without <math.h>/<stdlib.h> in the translation unit the unqualified abs()
resolves to ::abs(int): every |delta t| below one time unit became 0, so the
natural selection picked the wrong neighbour and all weights were 1.
---
 sacf/correlator/Correlator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 26fb9e2..abee40d 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -97,8 +97,8 @@ void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){
             if(idx < 0){ idx = 0L; } //to prevent negative 
 
             if(idx != 0){ //i.e. not the first index
-                if (abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx - 1))
-                    < abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
+                if (std::abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx - 1))
+                    < std::abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
             }
             cor_it->selection_indices.push_back(idx);
         }
@@ -124,8 +124,8 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
                                             (double) cor_it->shifted_timeseries[0])), 0L); // avoid negative indices
         long max_idx = cor_it->shifted_timeseries.size() - 1; // as we have ignored ds shifted beyond time series already
 
-        if (abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
-            < abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
+        if (std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
+            < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
         cor_it->selection_indices.resize(cor_it->shifted_timeseries.size());
         for (int i = 0; i <= max_idx - idx; i++) {
             cor_it->selection_indices[i] = idx + i;
@@ -163,7 +163,7 @@ void Correlator::deltaT(CorrelationIterator* cor_it){
     // returns a vector corresponding to the 'delta t' for each time point t_i + k subject to a selection index vector
     int t_i = 0;
     for(auto const& value: cor_it->selection_indices){
-        cor_it->delta_t.push_back(abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
+        cor_it->delta_t.push_back(std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
         t_i++;
     }
     cor_it->shifted_timeseries.clear();
-- 
2.43.0


From 2b9008dc9d431e92646012d4d7d58e50fa730b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 02/19] fix: accumulate the normalisation in double precision

The variance used to normalise the correlations read each value through a
float, so that correlations at lag 0 were not 1 (0.93 for values around 2^24).
---
 sacf/correlator/Correlator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index abee40d..9856f7e 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -39,7 +39,7 @@ Correlator::Correlator(DataStructure* ds_in){
     int i = 0;
     for(int j = 0; j < N_datasets; j++){
         for(int i = 0; i < M_datapoints; i++){
-            float X = ds->rdata()->at(ds->getVectorIndex(i, j));
+            double X = ds->rdata()->at(ds->getVectorIndex(i, j));
             if(!std::isnan(X)){
                 N[j] += (X - ds->mean_data()[j]) * (X - ds->mean_data()[j]);
             }
-- 
2.43.0


From c4ff28ab7241e5a76d0ca1aa9717c531968d388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 03/19] fix: keep the shifted time series until deltaT has read
 it

Both selection functions emptied it although deltaT, which empties it anyway,
still had to read it: every weight was computed from out-of-bounds reads (an
abort under -D_GLIBCXX_ASSERTIONS).
---
 sacf/correlator/Correlator.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 9856f7e..5070748 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -103,7 +103,6 @@ void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){
             cor_it->selection_indices.push_back(idx);
         }
     }
-    cor_it->shifted_timeseries.clear();
 }
 
 void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
@@ -131,7 +130,6 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
             cor_it->selection_indices[i] = idx + i;
         }
     }
-    cor_it->shifted_timeseries.clear();
 }
 
 void Correlator::findCorrelation(CorrelationIterator* cor_it){
-- 
2.43.0


From 51bf41da70bfe8fc5a29b9ff8af4053147dc1764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 04/19] fix: grow the result storage to the requested number of
 lags

The storage was sized once, for the default lag range and resolution, and
addCorrelationData wrote past its end (heap corruption) whenever the user chose
a wider range or a finer resolution, or widened them on a correlator that had
already been used; cleanCorrelationData read past its end likewise. Sizing it
for the defaults also refused series whose default grid is too large (or, with
coincident samples, infinite) although the user had chosen another one.
---
 sacf/correlator/Correlator.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 5070748..40230a1 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -3,6 +3,7 @@
 //
 
 #include "Correlator.h"
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 #include <cfloat>
@@ -49,9 +50,7 @@ Correlator::Correlator(DataStructure* ds_in){
     min_lag = -max_lag;
     lag_resolution = findMinDiff(ds->rnormalised_timeseries());
     alpha = ds->median_time();
-    num_lag_steps = (int) std::floor((max_lag - min_lag) / lag_resolution) + 3; // 3 additional elements at min, 0, max
-    correlation_data._correlations = std::vector<double>(N_datasets * num_lag_steps);
-    correlation_data._timeseries = std::vector<double>(num_lag_steps);
+    num_lag_steps = 0; // addCorrelationData makes room for the results
 };
 
 Correlator::Correlator(DataStructure *, DataStructure *) {
@@ -231,6 +230,10 @@ double Correlator::getNDatasets(){
 }
 
 void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_number){
+    if(timestep_number >= num_lag_steps){
+        // more lags than allocated (user specified lags or resolution): make room for them.
+        cleanCorrelationData(std::max(timestep_number + 1, 2 * num_lag_steps));
+    }
     correlation_data._timeseries[timestep_number] = col_it->k;
     for(int j = 0; j < N_datasets; j++){
         correlation_data._correlations[timestep_number + num_lag_steps * j] = col_it->correlation[j];
@@ -243,7 +246,7 @@ void Correlator::cleanCorrelationData(int i){
     std::vector<double> copy_correlations = std::vector<double>(N_datasets * i);
     for(int j = 0; j < N_datasets; j++){
         auto start = correlation_data._correlations.begin() + (j * num_lag_steps);
-        std::copy(start, start + i, copy_correlations.begin() + (j * i));
+        std::copy(start, start + std::min(i, num_lag_steps), copy_correlations.begin() + (j * i));
     }
     correlation_data._correlations = copy_correlations;
     num_lag_steps = i;
-- 
2.43.0


From abf2bb15275f31412b8c46962bc6346b63c04771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 05/19] fix: leave a cleared correlator without results

clearCorrelation emptied the storage but not the number of stored lags: reading
the correlations or computing them again went out of bounds. It also leaked the
object it copied from.
---
 sacf/include/Correlator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sacf/include/Correlator.h b/sacf/include/Correlator.h
index 410f2a1..4ff0735 100644
--- a/sacf/include/Correlator.h
+++ b/sacf/include/Correlator.h
@@ -87,7 +87,7 @@ public:
     void calculateStandardCorrelation();
     void _calculateStandardCorrelation(double, int);
 
-    void clearCorrelation() {correlation_data = *new CorrelationData; };
+    void clearCorrelation() {correlation_data = CorrelationData(); num_lag_steps = 0; };
 
     double fractionWeightFunction(double);
     double fractionSquaredWeightFunction(double);
-- 
2.43.0


From 0bdb0ae526a8730880a07285fbc14ff34424bf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 06/19] fix: make the fast selection pair consecutive samples
 from the closest one

It compared the sample after the first one not before the shifted time instead
of the one before it (never closer, and an IndexError next to the end of the
series), paired the samples left over with sample 0, and left out the sample
that lands on the end of the series, so that even the correlation at lag 0 was
not 1.
---
 sacf/correlator/Correlator.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 40230a1..705c33b 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -110,7 +110,7 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
      * by finding the closest point for the first data point and filling in the rest by index.
      */
     for(auto const& time_point: *ds->rnormalised_timeseries()){
-        if((time_point + cor_it->k) >= ds->rnormalised_timeseries()->back()){
+        if((time_point + cor_it->k) > ds->rnormalised_timeseries()->back()){
             break;
         }
         else { cor_it->shifted_timeseries.push_back(time_point + cor_it->k); }
@@ -120,12 +120,13 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
         long idx = std::max(distance(ds->rnormalised_timeseries()->begin(),
                                 lower_bound(ds->rnormalised_timeseries()->begin(), ds->rnormalised_timeseries()->end(),
                                             (double) cor_it->shifted_timeseries[0])), 0L); // avoid negative indices
-        long max_idx = cor_it->shifted_timeseries.size() - 1; // as we have ignored ds shifted beyond time series already
-
-        if (std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
-            < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
-        cor_it->selection_indices.resize(cor_it->shifted_timeseries.size());
-        for (int i = 0; i <= max_idx - idx; i++) {
+        if (idx != 0 && std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx - 1))
+            < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
+        // consecutive indices from there on, as far as there are data points
+        long n_selected = std::min((long) cor_it->shifted_timeseries.size(),
+                                   (long) ds->rnormalised_timeseries()->size() - idx);
+        cor_it->selection_indices.resize(n_selected);
+        for (long i = 0; i < n_selected; i++) {
             cor_it->selection_indices[i] = idx + i;
         }
     }
-- 
2.43.0


From ddb4e9be605fae1c34c305dac41fdaaa4fb1fcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:39 +0000
Subject: [PATCH 07/19] fix: read NaN fields and at most three columns from a
 data file

NaN could not be read: a NaN error (as in tests/tab_delim_with_titles_with_err.txt)
shortened the list of errors, so that errors() read past its end, and a row
with a NaN value was dropped. Columns after the third were taken for errors of
other rows or, in a file without errors, for additional data points.
---
 sacf/datastructure/DataStructure.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index fa972bf..c518016 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -7,7 +7,10 @@
 #include <iostream>
 #include <numeric>
 #include <algorithm>
+#include <cctype>
 #include <cmath>
+#include <cstdio>
+#include <limits>
 
 #include "DataStructure.h"
 
@@ -87,6 +90,24 @@ DataStructure::DataStructure(std::vector<double>* t_in, std::vector<double>* dat
     setUp();
 };
 
+static bool readValue(std::istream& line, double& value){
+    // reads the next field of a line: a number, or NaN for a missing one
+    std::string field;
+    if(!(line >> field)){ return false; }
+    std::istringstream number(field);
+    if(number >> value){
+        if(number.peek() != EOF){ line.setstate(std::ios::failbit); } // nothing to read after trailing text
+        return true;
+    }
+    std::transform(field.begin(), field.end(), field.begin(), ::tolower);
+    if(field == "nan"){
+        value = std::numeric_limits<double>::quiet_NaN();
+        return true;
+    }
+    line.setstate(std::ios::failbit);
+    return false;
+}
+
 DataStructure::DataStructure(const std::string &filename){
     /*
      * constructor for DataStructure from file
@@ -113,10 +134,10 @@ DataStructure::DataStructure(const std::string &filename){
                 }
 
                 std::stringstream linestream(line);
-                while(linestream >> t_val >> X_val){
+                if(linestream >> t_val && readValue(linestream, X_val)){
                     t_in.push_back(t_val);
                     data_in.push_back(X_val);
-                    while(linestream >> X_err_val && has_errors){
+                    if(has_errors && readValue(linestream, X_err_val)){
                         data_err_in.push_back(X_err_val);
                         update_has_errors = 0;
                     }
-- 
2.43.0


From f7bac1dcdc95352565bb9e3ac8509558ccacd3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 08/19] fix: refuse values and errors whose lengths do not
 match the time series

Only the total number of values modulo the number of times was checked: ragged
series were silently cut up and mixed or read out of bounds, extra values of a
single series ignored, and errors never checked (out-of-bounds reads).
---
 sacf/datastructure/DataStructure.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index c518016..5b30db0 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -35,7 +35,8 @@ BadDataInputException BadDataEx;
 
 void DataStructure::setUp(){
     if (_data.empty() || t.empty()){ throw EmptyDSEx; }
-    if (_data.size() % t.size() != 0){ throw BadDataEx; }
+    if (_data.size() != N_datasets * t.size()){ throw BadDataEx; }
+    if (!err.empty() && err.size() != _data.size()){ throw BadDataEx; }
     setDataMean();
     settMax();
     norm_t.resize(t.size());
@@ -44,6 +45,12 @@ void DataStructure::setUp(){
     settMedian();
 }
 
+static void checkSeriesLengths(const std::vector< std::vector<double> >& series, size_t n){
+    for(auto const& data_series: series){
+        if (data_series.size() != n){ throw BadDataEx; }
+    }
+}
+
 long DataStructure::getVectorIndex(int i, int j){
     return (long) i + j * M_datapoints;
 }
@@ -57,6 +64,7 @@ DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector
     N_datasets = data_in->size();
     M_datapoints = t_in->size();
     setUp();
+    checkSeriesLengths(*data_in, t.size());
 };
 
 DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector<double> >* data_in,
@@ -74,6 +82,8 @@ DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector
     N_datasets = data_in->size();
     M_datapoints = t_in->size();
     setUp();
+    checkSeriesLengths(*data_in, t.size());
+    if (!err.empty()){ checkSeriesLengths(*data_err_in, t.size()); }
 };
 
 DataStructure::DataStructure(std::vector<double>* t_in, std::vector<double>* data_in):
-- 
2.43.0


From a6aae5ec536fa6d71cd169e75d7b42f871787c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:19 +0000
Subject: [PATCH 09/19] fix: report a data file that cannot be read to its end

A read error part way through was taken for the end of the file: the samples
read so far were silently used as if they were all. Opening a directory was
reported as an empty data set.
---
 sacf/datastructure/DataStructure.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index 5b30db0..32fa9dd 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -158,6 +158,9 @@ DataStructure::DataStructure(const std::string &filename){
             }
         }
     }
+    if(file.bad()){
+        throw BadFileEx; // reading failed part way: what was read so far is not the file
+    }
     _data = data_in;
     t = t_in;
     if(has_errors){
-- 
2.43.0


From bffe0db838a0a6f81566bd5d82b45e5365f974bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 10/19] fix: refuse unordered times and lag parameters that
 never reach max_lag

A lag resolution that is zero, negative or NaN (also the default one of a
series with equal or unordered times) or an infinite lag range made the lag
loop run forever, writing past the result storage. The nearest sample is found
by binary search, which an unordered time series silently broke.
---
 sacf/correlator/Correlator.cpp | 13 +++++++++++++
 sacf/sacf.py                   |  8 ++++++++
 2 files changed, 21 insertions(+)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 705c33b..bbf595c 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -7,6 +7,7 @@
 #include <cmath>
 #include <iostream>
 #include <cfloat>
+#include <stdexcept>
 
 double findMinDiff(std::vector<double>* arr){
     // Initialize difference as infinite
@@ -36,6 +37,12 @@ Correlator::Correlator(DataStructure* ds_in){
     N_datasets = ds->N_datasets;
     M_datapoints = ds->M_datapoints;
 
+    for(size_t i = 1; i < ds->rnormalised_timeseries()->size(); i++){
+        if(!(ds->rnormalised_timeseries()->at(i) >= ds->rnormalised_timeseries()->at(i - 1))){
+            throw std::invalid_argument("time series must be in ascending order");
+        }
+    }
+
     N = std::vector<double>(N_datasets);
     int i = 0;
     for(int j = 0; j < N_datasets; j++){
@@ -255,10 +262,16 @@ void Correlator::cleanCorrelationData(int i){
 
 void Correlator::calculateStandardCorrelation(){
 
+    if(!std::isfinite(min_lag) || !std::isfinite(max_lag)){
+        throw std::invalid_argument("min_lag and max_lag must be finite");
+    }
     double k = min_lag;
     bool is_positive = false;
     int i = 0;
     while(k <= max_lag){
+        if(!(k + lag_resolution > k)){
+            throw std::invalid_argument("lag_resolution must be positive and large enough to advance the lag");
+        }
         if(k==0){
             is_positive = true;
         }
diff --git a/sacf/sacf.py b/sacf/sacf.py
index eeabe2f..76d3687 100644
--- a/sacf/sacf.py
+++ b/sacf/sacf.py
@@ -1,3 +1,5 @@
+from math import isinf, isnan
+
 from .datastructure import DataStructure
 from .correlator import CorrelationIterator, Correlator
 
@@ -68,9 +70,15 @@ class SACF:
         """
 
         def lag_generator(min_lag, max_lag, lag_resolution):
+            if any(isinf(lag) or isnan(lag) for lag in (min_lag, max_lag)):
+                raise ValueError("min_lag and max_lag must be finite")
             k = min_lag
             is_positive = False
             while k <= max_lag:
+                if not k + lag_resolution > k:
+                    raise ValueError(
+                        "lag_resolution must be positive and large enough to advance the lag"
+                    )
                 if k == 0:
                     is_positive = True
                 if k > 0 and not is_positive:
-- 
2.43.0


From 879cb9594a6783453ed1b918f949f3305c9e5adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 11/19] fix: accept an empty lag range with any selection and
 weight function

It raised UnboundLocalError where the standard correlation returns no lags.
---
 sacf/sacf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sacf/sacf.py b/sacf/sacf.py
index 76d3687..9f59a57 100644
--- a/sacf/sacf.py
+++ b/sacf/sacf.py
@@ -87,6 +87,7 @@ class SACF:
                 yield k
                 k += lag_resolution
 
+        i = -1  # there may be no lags
         for i, k in enumerate(
             lag_generator(corr.min_lag, corr.max_lag, corr.lag_resolution)
         ):
-- 
2.43.0


From 3d2c42ffc0e0ec038e737b51e9a1ac968627733d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 12/19] fix: ignore missing values (NaN) in the correlation as
 in its normalisation

The mean and the normalisation of a series skip its NaN values, but the sum over
pairs did not: one missing value made nearly every correlation of the series,
always including the one at lag 0, NaN.
---
 sacf/correlator/Correlator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index bbf595c..866cf54 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -143,8 +143,11 @@ void Correlator::findCorrelation(CorrelationIterator* cor_it){
     for(int j = 0; j < N_datasets; j++){
         int i = 0;
         for(auto const& weight: cor_it->weights){
-            cor_it->correlation[j] += weight * (ds->rnormalised_data()->at(ds->getVectorIndex(i, j))) *
-                                      (ds->rnormalised_data()->at(ds->getVectorIndex(cor_it->selection_indices[i], j)));
+            double X_i = ds->rnormalised_data()->at(ds->getVectorIndex(i, j));
+            double X_j = ds->rnormalised_data()->at(ds->getVectorIndex(cor_it->selection_indices[i], j));
+            if(!std::isnan(X_i) && !std::isnan(X_j)){ // missing values do not count, as in the mean and in N
+                cor_it->correlation[j] += weight * X_i * X_j;
+            }
             i++;
         }
         cor_it->correlation[j] *= (1 / N[j]);
-- 
2.43.0


From c357a930a3c649c61bc151a001fb86fcc3932eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 13/19] fix: raise an exception where misused correlation steps
 went out of bounds

The step functions are part of the Python API. Called in another order, with an
iterator made for fewer series, a negative step number or None, they read or
wrote out of bounds or followed a null pointer.
---
 sacf/correlator/Correlator.cpp          | 14 +++++++-------
 sacf/correlator/correlator_bindings.cpp | 18 +++++++++---------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 866cf54..4ecf909 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -27,7 +27,7 @@ double findMinDiff(std::vector<double>* arr){
 CorrelationIterator::CorrelationIterator(double k_in, double vec_size){
     k = k_in;
     correlation = std::vector<double>(vec_size);
-    for(int i = 0; i < vec_size; i++){
+    for(size_t i = 0; i < correlation.size(); i++){
         correlation[i] = 0;
     }
 };
@@ -144,13 +144,13 @@ void Correlator::findCorrelation(CorrelationIterator* cor_it){
         int i = 0;
         for(auto const& weight: cor_it->weights){
             double X_i = ds->rnormalised_data()->at(ds->getVectorIndex(i, j));
-            double X_j = ds->rnormalised_data()->at(ds->getVectorIndex(cor_it->selection_indices[i], j));
+            double X_j = ds->rnormalised_data()->at(ds->getVectorIndex(cor_it->selection_indices.at(i), j));
             if(!std::isnan(X_i) && !std::isnan(X_j)){ // missing values do not count, as in the mean and in N
-                cor_it->correlation[j] += weight * X_i * X_j;
+                cor_it->correlation.at(j) += weight * X_i * X_j;
             }
             i++;
         }
-        cor_it->correlation[j] *= (1 / N[j]);
+        cor_it->correlation.at(j) *= (1 / N[j]);
     }
 }
 
@@ -171,7 +171,7 @@ void Correlator::deltaT(CorrelationIterator* cor_it){
     // returns a vector corresponding to the 'delta t' for each time point t_i + k subject to a selection index vector
     int t_i = 0;
     for(auto const& value: cor_it->selection_indices){
-        cor_it->delta_t.push_back(std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
+        cor_it->delta_t.push_back(std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries.at(t_i)));
         t_i++;
     }
     cor_it->shifted_timeseries.clear();
@@ -245,9 +245,9 @@ void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_nu
         // more lags than allocated (user specified lags or resolution): make room for them.
         cleanCorrelationData(std::max(timestep_number + 1, 2 * num_lag_steps));
     }
-    correlation_data._timeseries[timestep_number] = col_it->k;
+    correlation_data._timeseries.at(timestep_number) = col_it->k;
     for(int j = 0; j < N_datasets; j++){
-        correlation_data._correlations[timestep_number + num_lag_steps * j] = col_it->correlation[j];
+        correlation_data._correlations[timestep_number + num_lag_steps * j] = col_it->correlation.at(j);
     }
 }
 
diff --git a/sacf/correlator/correlator_bindings.cpp b/sacf/correlator/correlator_bindings.cpp
index 12d2a3b..0a34c45 100644
--- a/sacf/correlator/correlator_bindings.cpp
+++ b/sacf/correlator/correlator_bindings.cpp
@@ -19,23 +19,23 @@ PYBIND11_MODULE(correlator, c) {
         ;
 
     py::class_<Correlator>(c, "Correlator")
-        .def(py::init<DataStructure*>(), py::keep_alive<1, 2>())
-        .def("naturalSelectionFunctionIdx", &Correlator::naturalSelectionFunctionIdx)
-        .def("fastSelectionFunctionIdx", &Correlator::fastSelectionFunctionIdx)
-        .def("deltaT", &Correlator::deltaT)
-        .def("findCorrelation", &Correlator::findCorrelation)
+        .def(py::init<DataStructure*>(), py::arg().none(false), py::keep_alive<1, 2>())
+        .def("naturalSelectionFunctionIdx", &Correlator::naturalSelectionFunctionIdx, py::arg().none(false))
+        .def("fastSelectionFunctionIdx", &Correlator::fastSelectionFunctionIdx, py::arg().none(false))
+        .def("deltaT", &Correlator::deltaT, py::arg().none(false))
+        .def("findCorrelation", &Correlator::findCorrelation, py::arg().none(false))
         .def("clearCorrelation", &Correlator::clearCorrelation)
         .def("fractionWeightFunction", &Correlator::fractionWeightFunction)
         .def("fractionSquaredWeightFunction", &Correlator::fractionSquaredWeightFunction)
         .def("gaussianWeightFunction", &Correlator::gaussianWeightFunction)
-        .def("getFractionWeights", &Correlator::getFractionWeights)
-        .def("getFractionSquaredWeights", &Correlator::getFractionSquaredWeights)
-        .def("getGaussianWeights", &Correlator::getGaussianWeights)
+        .def("getFractionWeights", &Correlator::getFractionWeights, py::arg().none(false))
+        .def("getFractionSquaredWeights", &Correlator::getFractionSquaredWeights, py::arg().none(false))
+        .def("getGaussianWeights", &Correlator::getGaussianWeights, py::arg().none(false))
         .def("normalised_timeseries", &Correlator::normalised_timeseries)
         .def("values", &Correlator::values)
         .def("lag_timeseries", &Correlator::lag_timeseries)
         .def("correlations", &Correlator::correlations)
-        .def("addCorrelationData", &Correlator::addCorrelationData)
+        .def("addCorrelationData", &Correlator::addCorrelationData, py::arg().none(false), py::arg())
         .def("cleanCorrelationData", &Correlator::cleanCorrelationData)
         .def("calculateStandardCorrelation", &Correlator::calculateStandardCorrelation)
         .def_property("max_lag", &Correlator::getMaxLag, &Correlator::setMaxLag)
-- 
2.43.0


From 19512349865365861f98c5095ef56c8c8d428a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:38 +0000
Subject: [PATCH 14/19] fix: gaussian weight function undefined for very small
 or large alpha

---
 sacf/correlator/Correlator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 4ecf909..41c1c82 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -164,7 +164,8 @@ double Correlator::fractionSquaredWeightFunction(double delta_t){
 }
 
 double Correlator::gaussianWeightFunction(double delta_t){
-    return exp( -((delta_t) * (delta_t)) / (2 * alpha * alpha));
+    double ratio = delta_t / alpha; // squares of the two themselves can underflow or overflow
+    return exp( -(ratio * ratio) / 2);
 }
 
 void Correlator::deltaT(CorrelationIterator* cor_it){
-- 
2.43.0


From ad215db8e7072549d9a0253d625eb2bc22cd9416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:04 +0000
Subject: [PATCH 15/19] fix: do not drop rows of a data file when memory runs
 out while reading them

---
 sacf/datastructure/DataStructure.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index 32fa9dd..b25306c 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -105,6 +105,7 @@ static bool readValue(std::istream& line, double& value){
     std::string field;
     if(!(line >> field)){ return false; }
     std::istringstream number(field);
+    number.exceptions(std::ios::badbit); // running out of memory is not the end of the field
     if(number >> value){
         if(number.peek() != EOF){ line.setstate(std::ios::failbit); } // nothing to read after trailing text
         return true;
@@ -144,6 +145,7 @@ DataStructure::DataStructure(const std::string &filename){
                 }
 
                 std::stringstream linestream(line);
+                linestream.exceptions(std::ios::badbit); // nor of the line
                 if(linestream >> t_val && readValue(linestream, X_val)){
                     t_in.push_back(t_val);
                     data_in.push_back(X_val);
-- 
2.43.0


From 852ddf5d1ce7ad00998e8ebb8cbd2a49ee8d3ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:04 +0000
Subject: [PATCH 16/19] fix: leave the results of a correlator in order when
 memory runs out

---
 sacf/correlator/Correlator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 41c1c82..e2ab480 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -254,13 +254,16 @@ void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_nu
 
 void Correlator::cleanCorrelationData(int i){
     // clean up extra elements at end of vector not used.
-    correlation_data._timeseries.resize(i);
+    std::vector<double> copy_timeseries = correlation_data._timeseries;
+    copy_timeseries.resize(i);
     std::vector<double> copy_correlations = std::vector<double>(N_datasets * i);
     for(int j = 0; j < N_datasets; j++){
         auto start = correlation_data._correlations.begin() + (j * num_lag_steps);
         std::copy(start, start + std::min(i, num_lag_steps), copy_correlations.begin() + (j * i));
     }
-    correlation_data._correlations = copy_correlations;
+    // nothing is changed before there is room for everything
+    correlation_data._timeseries.swap(copy_timeseries);
+    correlation_data._correlations.swap(copy_correlations);
     num_lag_steps = i;
 }
 
-- 
2.43.0


From 8745b6c227e08d4e88634668b7ce7c61519227b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:28 +0000
Subject: [PATCH 17/19] fix: do not leak the iterator of a lag whose
 computation fails

---
 sacf/correlator/Correlator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index e2ab480..d2f1975 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -299,11 +299,11 @@ void Correlator::_calculateStandardCorrelation(double k, int i){
     /*
     Standard method of calculating correlations, using fractional weight function and natural selection function
     */
-    auto const& col_it = new CorrelationIterator(k, N_datasets);
+    CorrelationIterator lag(k, N_datasets); // ends with this function, however it ends
+    auto const& col_it = &lag;
     naturalSelectionFunctionIdx(col_it);
     deltaT(col_it);
     getFractionWeights(col_it);
     findCorrelation(col_it);
     addCorrelationData(col_it, i);
-    delete col_it;
 }
-- 
2.43.0


From a2f1f805991fde4265cd46ca4c59cfa0b1e7e4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:16 +0000
Subject: [PATCH 18/19] fix: copies and pickles of data sets, correlators and
 iterators were uninitialised

---
 sacf/correlator/correlator_bindings.cpp       | 36 +++++++++++++++++++
 sacf/datastructure/datastructure_bindings.cpp |  6 ++++
 sacf/include/Correlator.h                     |  1 +
 3 files changed, 43 insertions(+)

diff --git a/sacf/correlator/correlator_bindings.cpp b/sacf/correlator/correlator_bindings.cpp
index 0a34c45..08c7657 100644
--- a/sacf/correlator/correlator_bindings.cpp
+++ b/sacf/correlator/correlator_bindings.cpp
@@ -10,16 +10,46 @@ PYBIND11_MODULE(correlator, c) {
 
     py::class_<CorrelationIterator>(c, "CorrelationIterator")
         .def(py::init<double, double>())
+        .def(py::init([](double k, const py::tuple& state){ // as __reduce__ gives it
+            CorrelationIterator it(k, 0);
+            it.correlation = state[0].cast<std::vector<double>>();
+            it.shifted_timeseries = state[1].cast<std::vector<double>>();
+            it.selection_indices = state[2].cast<std::vector<long>>();
+            it.delta_t = state[3].cast<std::vector<double>>();
+            it.weights = state[4].cast<std::vector<double>>();
+            return it;
+        }))
         .def_readonly("correlation", &CorrelationIterator::correlation)
         .def_readwrite("k", &CorrelationIterator::k)
         .def_readonly("shifted_timeseries", &CorrelationIterator::shifted_timeseries)
         .def_readonly("selection_indices", &CorrelationIterator::selection_indices)
         .def_readonly("delta_t", &CorrelationIterator::delta_t)
         .def_readonly("weights", &CorrelationIterator::weights)
+        .def("__reduce__", [](py::object self){ // copies and pickles
+            auto& it = self.cast<CorrelationIterator&>();
+            return py::make_tuple(self.attr("__class__"), py::make_tuple(it.k, py::make_tuple(
+                it.correlation, it.shifted_timeseries, it.selection_indices, it.delta_t, it.weights)));
+        })
         ;
 
     py::class_<Correlator>(c, "Correlator")
         .def(py::init<DataStructure*>(), py::arg().none(false), py::keep_alive<1, 2>())
+        .def(py::init([](DataStructure* ds, const py::tuple& state){ // as __reduce__ gives it
+            Correlator corr(ds);
+            corr.setMinLag(state[0].cast<double>());
+            corr.setMaxLag(state[1].cast<double>());
+            corr.setLagResolution(state[2].cast<double>());
+            corr.setAlpha(state[3].cast<double>());
+            auto const lags = state[4].cast<std::vector<double>>();
+            auto const correlations = state[5].cast<std::vector<std::vector<double>>>();
+            for(size_t i = 0; i < lags.size(); i++){
+                CorrelationIterator it(lags[i], 0);
+                for(auto const& series: correlations){ it.correlation.push_back(series.at(i)); }
+                corr.addCorrelationData(&it, i);
+            }
+            corr.cleanCorrelationData(lags.size());
+            return corr;
+        }), py::arg().none(false), py::arg(), py::keep_alive<1, 2>())
         .def("naturalSelectionFunctionIdx", &Correlator::naturalSelectionFunctionIdx, py::arg().none(false))
         .def("fastSelectionFunctionIdx", &Correlator::fastSelectionFunctionIdx, py::arg().none(false))
         .def("deltaT", &Correlator::deltaT, py::arg().none(false))
@@ -44,6 +74,12 @@ PYBIND11_MODULE(correlator, c) {
         .def_property("alpha", &Correlator::getAlpha, &Correlator::setAlpha)
         .def_property_readonly("M_datapoints", &Correlator::getMDatapoints)
         .def_property_readonly("N_datasets", &Correlator::getNDatasets)
+        .def("__reduce__", [](py::object self){ // copies and pickles
+            auto& corr = self.cast<Correlator&>();
+            return py::make_tuple(self.attr("__class__"), py::make_tuple(corr.dataStructure(), py::make_tuple(
+                corr.getMinLag(), corr.getMaxLag(), corr.getLagResolution(), corr.getAlpha(),
+                corr.lag_timeseries(), corr.correlations())));
+        })
         ;
 
 }
\ No newline at end of file
diff --git a/sacf/datastructure/datastructure_bindings.cpp b/sacf/datastructure/datastructure_bindings.cpp
index c203403..cfb7ef8 100644
--- a/sacf/datastructure/datastructure_bindings.cpp
+++ b/sacf/datastructure/datastructure_bindings.cpp
@@ -21,6 +21,12 @@ PYBIND11_MODULE(datastructure, ds) {
         .def_property_readonly("max_time", &DataStructure::max_time)
         .def_property_readonly("N_datasets", [](const DataStructure &ds){ return ds.N_datasets; })
         .def_property_readonly("M_datapoints", [](const DataStructure &ds){ return ds.M_datapoints; })
+        .def("__reduce__", [](py::object self){ // copies and pickles are made from the same input
+            auto& data = self.cast<DataStructure&>();
+            return py::make_tuple(self.attr("__class__"), data.err_2d().empty()
+                ? py::make_tuple(data.timeseries(), data.data_2d())
+                : py::make_tuple(data.timeseries(), data.data_2d(), data.err_2d()));
+        })
         ;
     py::register_exception<EmptyDataStructureException>(ds, "EmptyDataStructureException");
     py::register_exception<BadDataFileReadException>(ds, "BadDataFileReadException");
diff --git a/sacf/include/Correlator.h b/sacf/include/Correlator.h
index 4ff0735..83272fb 100644
--- a/sacf/include/Correlator.h
+++ b/sacf/include/Correlator.h
@@ -110,6 +110,7 @@ public:
     double getAlpha();
 
     double getNDatasets();
+    DataStructure* dataStructure() { return ds; }
     double getMDatapoints();
 
 //    std::vector<double>* rnormalised_timeseries();
-- 
2.43.0


From 4f323acf0b4c36548a06a2d28f88f15837b775a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:20 +0000
Subject: [PATCH 19/19] fix: numbers in files were read with the decimal point
 of the global C++ locale

With a global locale that has a decimal comma (set by another extension, or by
a program embedding Python), rows with decimal points were dropped.
---
 sacf/datastructure/DataStructure.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index b25306c..ff2032b 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -11,6 +11,7 @@
 #include <cmath>
 #include <cstdio>
 #include <limits>
+#include <locale>
 
 #include "DataStructure.h"
 
@@ -105,6 +106,7 @@ static bool readValue(std::istream& line, double& value){
     std::string field;
     if(!(line >> field)){ return false; }
     std::istringstream number(field);
+    number.imbue(std::locale::classic()); // a decimal point is one wherever the file is read
     number.exceptions(std::ios::badbit); // running out of memory is not the end of the field
     if(number >> value){
         if(number.peek() != EOF){ line.setstate(std::ios::failbit); } // nothing to read after trailing text
@@ -145,6 +147,7 @@ DataStructure::DataStructure(const std::string &filename){
                 }
 
                 std::stringstream linestream(line);
+                linestream.imbue(std::locale::classic());
                 linestream.exceptions(std::ios::badbit); // nor of the line
                 if(linestream >> t_val && readValue(linestream, X_val)){
                     t_in.push_back(t_val);
-- 
2.43.0

