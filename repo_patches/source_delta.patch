From 6ce495e521d334c0a3bf3b65038834bd819f0b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:34 +0000
Subject: [PATCH 01/35] fix: normalize considers the last column of odd-length
 series

The pairwise min/max scan decided whether to start at 0 or 1 from the parity of
itemLength * itemCount instead of itemLength, so with an odd length and an even
number of series the last column was never looked at.
---
 src/TimeSeriesSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index d883352..05d9821 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -227,7 +227,7 @@ std::pair<data_t, data_t> TimeSeriesSet::normalize(void)
     data_t x, y, z;
 
     // start at 0 if even, 1 if odd
-    if ((i = (length % 2 != 0)))
+    if ((i = (this->itemLength % 2 != 0)))
     {
       if (data[ts * this->itemLength] < MIN)
       {
-- 
2.43.0


From 86820e60c5501ed2de0e175b96d23e587a44c8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:34 +0000
Subject: [PATCH 02/35] fix: clear exactly the loaded buffer in single
 precision

sizeof(data_t*) is twice sizeof(float), so the memset ran past the buffer.
---
 src/TimeSeriesSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 05d9821..e2b0634 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -110,7 +110,7 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
         // If this is the first row, set length of each row to length of this row
         length = std::distance(tokens.begin(), tokens.end());
         this->data = new data_t[maxNumRow * length];
-        memset(this->data, 0, maxNumRow * length * sizeof(data_t*));
+        memset(this->data, 0, maxNumRow * length * sizeof(data_t));
 
       }
       else if (length != std::distance(tokens.begin(), tokens.end()))
-- 
2.43.0


From 1b4a36e06e922cda03d57b25a974f49d10df90dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:34 +0000
Subject: [PATCH 03/35] fix: reject dataset loads that leave no data or a
 negative start column

An empty file gave an item length of -1, a start column past the last column a
negative item length, and a negative start column wrote past the buffer.
---
 src/TimeSeriesSet.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index e2b0634..684284f 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -109,6 +109,12 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
       {
         // If this is the first row, set length of each row to length of this row
         length = std::distance(tokens.begin(), tokens.end());
+        if (startCol < 0 || startCol >= length)
+        {
+          f.close();
+          this->clearData();
+          throw OnexException("Starting column is out of range");
+        }
         this->data = new data_t[maxNumRow * length];
         memset(this->data, 0, maxNumRow * length * sizeof(data_t));
 
@@ -158,6 +164,12 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
     throw OnexException("Error while reading file");
   }
 
+  if (this->itemCount == 0)
+  {
+    f.close();
+    throw OnexException("File contains no time series");
+  }
+
   this->itemLength = length - startCol;
   this->filePath = filePath;
 
-- 
2.43.0


From 77acdcba64f4e88f7888ec814018b2bb422e5986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:04 +0000
Subject: [PATCH 04/35] fix: report a read error hit while counting lines

The error was cleared and the rows before it were loaded as the whole file.
---
 src/TimeSeriesSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 684284f..0da055c 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -24,6 +24,10 @@ int countNumberOfLines(std::ifstream& f)
   int lineCount = 0;
   string line;
   for (lineCount = 0; std::getline(f, line); ++lineCount);
+  if (f.bad())
+  {
+    throw OnexException("Error while reading file");
+  }
   f.clear();
   f.seekg(0);
   return lineCount;
-- 
2.43.0


From 25b036705024b36746319731ec230abefc9efcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:04 +0000
Subject: [PATCH 05/35] fix: report failed writes when saving a dataset or its
 groups

A full disk was reported as a successful save.
---
 src/GroupableTimeSeriesSet.cpp | 5 +++++
 src/TimeSeriesSet.cpp          | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 96df068..637b007 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -60,6 +60,11 @@ void GroupableTimeSeriesSet::saveGroups(const string& path, bool groupSizeOnly)
          << this->getItemCount() << " "
          << this->getItemLength() << endl;
     this->groupsAllLengthSet->saveGroups(fout, groupSizeOnly);
+    fout.close();
+    if (!fout)
+    {
+      throw OnexException(string("Error while writing to ") + path);
+    }
   }
   else
   {
diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 0da055c..cc72516 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -195,6 +195,10 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f << std::endl;
   }
   f.close();
+  if (!f)
+  {
+    throw OnexException(string("Error while writing to ") + filePath);
+  }
 }
 
 void TimeSeriesSet::clearData()
-- 
2.43.0


From a90beaeda744da373fd64f54c5d0ffa8d340ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:04 +0000
Subject: [PATCH 06/35] fix: save datasets and groups with enough digits to
 read them back unchanged

Datasets and the group threshold were cut to 6 significant digits, group
representatives to 16.
---
 src/GroupableTimeSeriesSet.cpp | 1 +
 src/TimeSeries.cpp             | 2 +-
 src/TimeSeriesSet.cpp          | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 637b007..495a31b 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -54,6 +54,7 @@ void GroupableTimeSeriesSet::saveGroups(const string& path, bool groupSizeOnly)
   ofstream fout(path);
   if (fout)
   {
+    fout.precision(std::numeric_limits<data_t>::max_digits10);
     // Version of the file format, the threshold and the required dataset dimensions
     fout << GROUP_FILE_VERSION << " " 
          << this->threshold << " "
diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index 707dda2..08f458a 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -133,7 +133,7 @@ string TimeSeries::getIdentifierString() const
 void TimeSeries::printData(std::ostream &out) const
 {
   for (int i = 0; i < length; i++) {
-    out << std::setprecision(std::numeric_limits<data_t>::digits10 + 1)
+    out << std::setprecision(std::numeric_limits<data_t>::max_digits10)
         << data[start + i] << " ";
   }
 }
diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index cc72516..11f98a1 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -188,6 +188,7 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f.close();
     throw OnexException(string("Cannot open ") + filePath);
   }
+  f.precision(std::numeric_limits<data_t>::max_digits10);
   for (int i = 0; i < itemCount; i++) {
     for (int j = 0; j < itemLength; j++) {
       f << data[i * itemLength + j] << separator;
-- 
2.43.0


From 46abf88f1e8b7e1f867dd187b7ceef6d169c9511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:04 +0000
Subject: [PATCH 07/35] fix: release arrays with delete[]

---
 src/TimeSeries.cpp    | 2 +-
 src/TimeSeriesSet.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index 08f458a..a8d44cb 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -50,7 +50,7 @@ TimeSeries::~TimeSeries()
   // if object allocated the data, delete it
   if (this->isOwnerOfData)
   {
-    delete this->data;
+    delete[] this->data;
     this->data = nullptr;
   }
   delete[] keoghLower;
diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 11f98a1..818f899 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -325,7 +325,7 @@ void TimeSeriesSet::PAA(int n)
     doPAA(this->data + ts * this->itemLength, new_data + ts * newItemLength,
       this->itemLength, n);
   }
-  delete this->data;
+  delete[] this->data;
   this->data = new_data;
   this->itemLength = newItemLength;
 }
-- 
2.43.0


From 53ff3c83636393f335ea23a96487b34874586fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:04 +0000
Subject: [PATCH 08/35] fix: drop old data and cached envelopes when a
 TimeSeries is assigned

Assignment kept the Keogh envelopes of the previous content (possibly of another
length), move assignment leaked the data the target owned, and self assignment
read freed memory.
---
 src/TimeSeries.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index a8d44cb..1c12abb 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -14,6 +14,9 @@ namespace onex {
 
 TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 {
+  if (this == &other) {
+    return *this;
+  }
   if (isOwnerOfData) {
     delete[] this->data;
   }
@@ -30,11 +33,19 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
   else {
     this->data = other.data;
   }
+  keoghCacheValid = false;
   return *this;
 }
 
 TimeSeries& TimeSeries::operator=(TimeSeries&& other)
 {
+  if (this == &other) {
+    return *this;
+  }
+  if (isOwnerOfData) {
+    delete[] this->data;
+  }
+  keoghCacheValid = false;
   data = other.data;
   index = other.index;
   start = other.start;
-- 
2.43.0


From 3114d268989189bcd7e0674f794d80f2768511cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:04 +0000
Subject: [PATCH 09/35] fix: recompute Keogh envelopes after a data point is
 modified

operator[] hands out a writable reference but left the cached envelopes valid.
---
 src/TimeSeries.cpp | 12 +++++++++++-
 src/TimeSeries.hpp |  3 ++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index 1c12abb..2a4dd93 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -70,7 +70,17 @@ TimeSeries::~TimeSeries()
   keoghUpper = nullptr;
 }
 
-data_t& TimeSeries::operator[](int idx) const
+data_t& TimeSeries::operator[](int idx)
+{
+  // the caller may write through the returned reference
+  keoghCacheValid = false;
+  if (idx < 0 || idx >= this->length) {
+    throw OnexException("Data point index is out of range");
+  }
+  return this->data[start + idx];
+}
+
+const data_t& TimeSeries::operator[](int idx) const
 {
   if (idx < 0 || idx >= this->length) {
     throw OnexException("Data point index is out of range");
diff --git a/src/TimeSeries.hpp b/src/TimeSeries.hpp
index 0a20713..4344252 100644
--- a/src/TimeSeries.hpp
+++ b/src/TimeSeries.hpp
@@ -119,7 +119,8 @@ public:
    *
    *  @throw OnexException if the index is out of bound
    */
-  data_t& operator[](int idx) const;
+  const data_t& operator[](int idx) const;
+  data_t& operator[](int idx);
 
   /**
    *  @brief accumulate data from other time series into this one
-- 
2.43.0


From e681441f8f44cf66cdc2d6c401f65647927cb7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:04 +0000
Subject: [PATCH 10/35] fix: order candidates by distance with the
 floating-point abs

The unqualified name resolved to int abs(int), so distances less than 1 apart
counted as equal.
---
 src/TimeSeries.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries.hpp b/src/TimeSeries.hpp
index 4344252..19e8277 100644
--- a/src/TimeSeries.hpp
+++ b/src/TimeSeries.hpp
@@ -204,7 +204,7 @@ struct candidate_time_series_t
 
   bool operator<(const candidate_time_series_t& rhs) const 
   {
-    if (abs(dist - rhs.dist) < EPS)
+    if (std::abs(dist - rhs.dist) < EPS)
     {
       if (data.getIndex() == rhs.data.getIndex())
       {
-- 
2.43.0


From 0423aea2d5f8185d798a0f1aa6e4e710a955e602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:04 +0000
Subject: [PATCH 11/35] fix: do not divide by zero when logging progress of
 fewer than 5 subsequences

---
 src/LocalLengthGroupSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index 08949c2..98fc045 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -64,7 +64,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
     {
       counter++;
       if (doLog) {
-        if (counter % (totalTimeSeries / LOG_FREQ) == 0) {
+        if (counter % std::max(1, totalTimeSeries / LOG_FREQ) == 0) {
           cout << "  Grouping progress... " << counter << "/" << totalTimeSeries 
                << " (" << counter*100/totalTimeSeries << "%)" << endl;
         }
-- 
2.43.0


From ba0611d41e54d1337ced1e527c182baa174562a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:04 +0000
Subject: [PATCH 12/35] fix: handle queries longer than the dataset and queries
 without a match

The traverse order listed lengths that the dataset does not have, which read past
the list of groups, and a query without any candidate at a finite distance
dereferenced a null group.
---
 src/GlobalGroupSpace.cpp | 11 +++++++++--
 src/Group.cpp            |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/GlobalGroupSpace.cpp b/src/GlobalGroupSpace.cpp
index 5ca33e6..0f965c7 100644
--- a/src/GlobalGroupSpace.cpp
+++ b/src/GlobalGroupSpace.cpp
@@ -76,6 +76,9 @@ candidate_time_series_t GlobalGroupSpace::getBestMatch(const TimeSeries& query)
       bestSoFarDist = candidate.second;
     }
   }
+  if (bestSoFarGroup == nullptr) {
+    throw OnexException("No match is found for the query");
+  }
   return bestSoFarGroup->getBestMatch(query, this->warpedDistance);
 }
 
@@ -120,7 +123,9 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
   int high = queryLength + 1;
   bool lowStop = false, highStop = false;
 
-  order.push_back(queryLength);
+  if (queryLength <= totalLength) {
+    order.push_back(queryLength);
+  }
   while (!(lowStop && highStop)) {
     if (low < 2) lowStop = true;
     if (high > totalLength) highStop = true;
@@ -129,7 +134,9 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
       // queryLength is always larger than low
       int r = calculateWarpingBandSize(queryLength);
       if (low + r >= queryLength) {
-        order.push_back(low);
+        if (low <= totalLength) {
+          order.push_back(low);
+        }
         low--;
       }
       else {
diff --git a/src/Group.cpp b/src/Group.cpp
index 57df2fe..dff0ee2 100644
--- a/src/Group.cpp
+++ b/src/Group.cpp
@@ -39,7 +39,7 @@ candidate_time_series_t Group::getBestMatch(const TimeSeries& query, const dist_
   member_coord_t currentMemberCoord = this->lastMemberCoord;
 
   data_t bestSoFarDist = INF;
-  member_coord_t bestSoFarMember;
+  member_coord_t bestSoFarMember(-1, -1);
 
   while (currentMemberCoord.first != -1)
   {
-- 
2.43.0


From ee839e0b2266d93390090d86608fba1563325750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 13/35] fix: drop the groups and the normalized mark of a
 dataset whose values change

After PAA or a reload the groups still pointed into the released buffer; after
normalize their cached envelopes and loaded representatives described the old
values. A reloaded set was still reported as normalized.
---
 src/GroupableTimeSeriesSet.hpp | 3 +++
 src/TimeSeriesSet.cpp          | 4 ++++
 src/TimeSeriesSet.hpp          | 6 ++++++
 3 files changed, 13 insertions(+)

diff --git a/src/GroupableTimeSeriesSet.hpp b/src/GroupableTimeSeriesSet.hpp
index e7d48c8..f1d0ff0 100644
--- a/src/GroupableTimeSeriesSet.hpp
+++ b/src/GroupableTimeSeriesSet.hpp
@@ -57,6 +57,9 @@ public:
    */
   candidate_time_series_t getBestMatch(const TimeSeries& other) const;
 
+protected:
+  void onDataChanged() override { this->reset(); }
+
 private:
   GlobalGroupSpace* groupsAllLengthSet = nullptr;
   data_t threshold;
diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 818f899..7082b28 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -204,10 +204,12 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
 
 void TimeSeriesSet::clearData()
 {
+  this->onDataChanged();
   delete[] this->data;
   this->data = nullptr;
   this->itemCount = 0;
   this->itemLength = 0;
+  this->normalized = false;
 }
 
 TimeSeries TimeSeriesSet::getTimeSeries(int index, int start, int end) const
@@ -310,6 +312,7 @@ std::pair<data_t, data_t> TimeSeriesSet::normalize(void)
     }
   }
   normalized = true;
+  this->onDataChanged();
   return std::make_pair(MIN, MAX);
 }
 
@@ -325,6 +328,7 @@ void TimeSeriesSet::PAA(int n)
     doPAA(this->data + ts * this->itemLength, new_data + ts * newItemLength,
       this->itemLength, n);
   }
+  this->onDataChanged();
   delete[] this->data;
   this->data = new_data;
   this->itemLength = newItemLength;
diff --git a/src/TimeSeriesSet.hpp b/src/TimeSeriesSet.hpp
index c0622e6..3107ea2 100644
--- a/src/TimeSeriesSet.hpp
+++ b/src/TimeSeriesSet.hpp
@@ -138,6 +138,12 @@ public:
   bool isLoaded(void);
 
 protected:
+  /**
+   *  @brief called right before or after the values of the dataset change, so that
+   *         anything derived from them can be dropped
+   */
+  virtual void onDataChanged() {}
+
   data_t* data = nullptr;
   int itemLength;
   int itemCount;
-- 
2.43.0


From 0fe1c3c4b2f4736d7a969fbe3186f689a7198625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 14/35] fix: do not report a dataset as grouped after grouping
 or loading groups failed

A failure left a half-built set of groups behind, and matching against it read
missing groups. Groups present before a failed load are now kept.
---
 src/GroupableTimeSeriesSet.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 495a31b..0fae323 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -5,6 +5,7 @@
 #include <iostream>
 
 #include <fstream>
+#include <memory>
 
 using std::ofstream;
 using std::ifstream;
@@ -28,8 +29,9 @@ int GroupableTimeSeriesSet::groupAllLengths(const std::string& distance_name, da
   // clear old groups
   reset();
 
-  this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-  int cntGroups = this->groupsAllLengthSet->group(distance_name, threshold);
+  std::unique_ptr<GlobalGroupSpace> groups(new GlobalGroupSpace(*this));
+  int cntGroups = groups->group(distance_name, threshold);
+  this->groupsAllLengthSet = groups.release();
   this->threshold = threshold;
   return cntGroups;
 }
@@ -95,10 +97,11 @@ int GroupableTimeSeriesSet::loadGroups(const string& path)
       throw OnexException("Incompatible item length");
     }
     cout << "Saved groups are compatible with the dataset" << endl;
+    std::unique_ptr<GlobalGroupSpace> groups(new GlobalGroupSpace(*this));
+    numberOfGroups = groups->loadGroups(fin);
     reset();
     this->threshold = threshold;
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    numberOfGroups = this->groupsAllLengthSet->loadGroups(fin);
+    this->groupsAllLengthSet = groups.release();
   }
   else
   {
-- 
2.43.0


From 6ac01a0d47fc482a6af3c75f28bbabcc7c9c623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 15/35] fix: reject truncated or corrupt group files

Missing values were left uninitialized, member positions outside the dataset wrote
past the member map, and a repeated member made the member list cyclic.
---
 src/GlobalGroupSpace.cpp       |  5 ++++-
 src/Group.cpp                  | 12 ++++++++++--
 src/Group.hpp                  |  2 +-
 src/GroupableTimeSeriesSet.cpp |  5 ++++-
 src/LocalLengthGroupSpace.cpp  | 12 ++++++++++--
 5 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/GlobalGroupSpace.cpp b/src/GlobalGroupSpace.cpp
index 0f965c7..fe9453e 100644
--- a/src/GlobalGroupSpace.cpp
+++ b/src/GlobalGroupSpace.cpp
@@ -105,13 +105,16 @@ int GlobalGroupSpace::loadGroups(ifstream &fin)
   int numberOfGroups = 0;
   string distance;
   fin >> lenFrom >> lenTo >> distance;
+  if (!fin || lenFrom != 2 || lenTo != dataset.getItemLength() + 1) {
+    throw OnexException("Invalid group file");
+  }
   boost::trim_right(distance);
   this->loadDistance(distance);
   this->localLengthGroupSpace.resize(dataset.getItemLength() + 1, nullptr);  
   for (unsigned int i = lenFrom; i < lenTo; i++) {
     LocalLengthGroupSpace* gel = new LocalLengthGroupSpace(dataset, i);
-    numberOfGroups += gel->loadGroups(fin);
     this->localLengthGroupSpace[i] = gel;
+    numberOfGroups += gel->loadGroups(fin);
   }
   return numberOfGroups;
 }
diff --git a/src/Group.cpp b/src/Group.cpp
index dff0ee2..9fbf91b 100644
--- a/src/Group.cpp
+++ b/src/Group.cpp
@@ -109,10 +109,18 @@ void Group::loadGroup(ifstream &fin)
     fin >> this->centroid[i];
   }
 
-  fin >> cnt; 
+  if (!(fin >> cnt) || cnt <= 0) {
+    throw OnexException("Invalid group file");
+  }
   int index, start;
   for (int i = 0; i < cnt; i++) {
-    fin >> index >> start;
+    // Each subsequence of the dataset must be in exactly one group
+    if (!(fin >> index >> start)
+        || index < 0 || index >= this->dataset.getItemCount()
+        || start < 0 || start >= this->subTimeSeriesCount
+        || this->memberMap[index * this->subTimeSeriesCount + start].groupIndex != -1) {
+      throw OnexException("Invalid group file");
+    }
     this->addMember(index, start);
   }
 }
diff --git a/src/Group.hpp b/src/Group.hpp
index d922a65..f88faa8 100644
--- a/src/Group.hpp
+++ b/src/Group.hpp
@@ -27,7 +27,7 @@ struct group_membership_t
   member_coord_t prev;
   int groupIndex;
 
-  group_membership_t() {}
+  group_membership_t() : prev(-1, -1), groupIndex(-1) {}
   group_membership_t(int groupIndex, member_coord_t prev)
     : groupIndex(groupIndex), prev(prev) {}
 };
diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index 0fae323..e706257 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -83,7 +83,10 @@ int GroupableTimeSeriesSet::loadGroups(const string& path)
   {
     int version, grpItemCount, grpItemLength;
     data_t threshold;
-    fin >> version >> threshold >> grpItemCount >> grpItemLength;
+    if (!(fin >> version >> threshold >> grpItemCount >> grpItemLength))
+    {
+      throw OnexException("Invalid group file");
+    }
     if (version != GROUP_FILE_VERSION)
     {
       throw OnexException("Incompatible file version");
diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index 98fc045..b4232a9 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -138,12 +138,20 @@ int LocalLengthGroupSpace::loadGroups(ifstream &fin)
 {
   reset();
   int numberOfGroups;
-  fin >> numberOfGroups;
+  if (!(fin >> numberOfGroups) || numberOfGroups < 0) {
+    throw OnexException("Invalid group file");
+  }
+  size_t numberOfMembers = 0;
+  this->memberMap.assign(this->memberMap.size(), group_membership_t());
   for (unsigned int i = 0; i < numberOfGroups; i++)
   {
     Group* grp = new Group(i, this->length, this->subTimeSeriesCount, this->dataset, this->memberMap);
-    grp->loadGroup(fin);
     this->groups.push_back(grp);
+    grp->loadGroup(fin);
+    numberOfMembers += grp->getCount();
+  }
+  if (numberOfMembers != this->memberMap.size()) {
+    throw OnexException("Invalid group file");
   }
   return numberOfGroups;
 }
-- 
2.43.0


From 78cb7c1382cf5293f599db0d1566dd9cdd0f55a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 16/35] fix: require an end position for match and free lines
 from readline with free

match with a start but no end read past the argument list.
---
 cli/OnexCLI.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cli/OnexCLI.cpp b/cli/OnexCLI.cpp
index f46b7dc..a08e2bc 100644
--- a/cli/OnexCLI.cpp
+++ b/cli/OnexCLI.cpp
@@ -369,7 +369,7 @@ MAKE_COMMAND(PAA,
 
 MAKE_COMMAND(Match,
   {
-    if (tooFewArgs(args, 4) || tooManyArgs(args, 6))
+    if (tooFewArgs(args, args.size() == 5 ? 6 : 4) || tooManyArgs(args, 6))
     {
       return false;
     }
@@ -536,7 +536,7 @@ bool wantToQuitByEOF()
   char* raw_line = nullptr;
   do
   {
-    delete raw_line;
+    free(raw_line);
     raw_line = readline("Do you really want to exit ([y]/n)? ");
     if (raw_line == nullptr || strcmp(raw_line, "y") == 0 || strcmp(raw_line, "") == 0)
     {
@@ -573,7 +573,7 @@ int main (int argc, char *argv[])
         add_history(raw_line);
       }
       string line = string(raw_line);
-      delete raw_line;
+      free(raw_line);
       try
       {
         quit = processLine(line);
-- 
2.43.0


From 561fbc1a718a151f49b8490d0022036998b6b6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:06 +0000
Subject: [PATCH 17/35] fix: describe the length range of group files as it is
 written

The documentation counted one block more than saveGroup writes.
---
 src/README.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/README.md b/src/README.md
index ed1df11..bb96abd 100644
--- a/src/README.md
+++ b/src/README.md
@@ -15,7 +15,7 @@ The second and third line contains the range of representative lengths and the d
 <distance>
 ```
 
-For each of the next (`<to-length> - <from_length> + 1`) blocks of lines, each block has the following format
+The range does not include `<to_length>`, which is one more than the item length. For each of the next (`<to-length> - <from_length>`) blocks of lines, each block has the following format
 ```
 <number_of_groups>
 <group_description>
-- 
2.43.0


From b3b7ca7a34ba4918c988e642f5ac8a3b2a470c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:47 +0000
Subject: [PATCH 18/35] fix: reject surplus arguments of the unload command

---
 cli/OnexCLI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/OnexCLI.cpp b/cli/OnexCLI.cpp
index a08e2bc..d685ab8 100644
--- a/cli/OnexCLI.cpp
+++ b/cli/OnexCLI.cpp
@@ -141,7 +141,7 @@ MAKE_COMMAND(SaveDataset,
 
 MAKE_COMMAND(UnloadDataset,
   {
-    if (tooFewArgs(args, 2) || tooManyArgs(args, 5))
+    if (tooFewArgs(args, 2) || tooManyArgs(args, 2))
     {
       return false;
     }
-- 
2.43.0


From c93c604d6af2ce30c675f6c6361dabbec2f68182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:47 +0000
Subject: [PATCH 19/35] fix: reject PAA on a set without data

---
 src/TimeSeriesSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 7082b28..8e555d5 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -321,6 +321,9 @@ void TimeSeriesSet::PAA(int n)
   if (n <= 0) {
     throw OnexException("Block size must be positive");
   }
+  if (!this->isLoaded()) {
+    throw OnexException("No data for PAA");
+  }
   int newItemLength = calcPAALength(this->itemLength, n);
   data_t* new_data = new data_t[this->itemCount * newItemLength];
   for (int ts = 0; ts < this->itemCount; ts++)
-- 
2.43.0


From c1558bddb47068b9192e160adf38c2bf783235b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:11 +0000
Subject: [PATCH 20/35] fix: found a new group when no representative is at a
 finite distance

---
 src/LocalLengthGroupSpace.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index b4232a9..878dd86 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -73,7 +73,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
       TimeSeries query = dataset.getTimeSeries(idx, start, start + this->length);
 
       data_t bestSoFar = INF;
-      int bestSoFarIndex;
+      int bestSoFarIndex = -1;
 
       for (unsigned int i = 0; i < groups.size(); i++)
       {
@@ -85,7 +85,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
         }
       }
 
-      if (bestSoFar > threshold / 2 || this->groups.size() == 0)
+      if (bestSoFarIndex < 0 || bestSoFar > threshold / 2)
       {
         bestSoFarIndex = this->groups.size();
         int newGroupIndex = this->groups.size();
-- 
2.43.0


From 30f6fa21690f3895c0c93f3a9ac25fc0f55d9469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:11 +0000
Subject: [PATCH 21/35] fix: never step out of the warping band when a cost
 overflows

---
 src/distance/Distance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distance/Distance.cpp b/src/distance/Distance.cpp
index 088f842..c328582 100644
--- a/src/distance/Distance.cpp
+++ b/src/distance/Distance.cpp
@@ -100,7 +100,7 @@ data_t warpedDistance(const TimeSeries& a, const TimeSeries& b, data_t dropout)
       data_t ij1  = (i - r <= j-1 && j-1 <= i + r) ? cost[i][j-1] : INF;
       data_t i1j1 = cost[i-1][j-1];
       data_t i1j  = (j - r <= i-1 && i-1 <= j + r) ? cost[i-1][j] : INF;
-      data_t minPrev = cost[i-1][j];
+      data_t minPrev = i1j;
       if (i1j1 < ij1 && i1j1 < i1j)
       {
         minPrev = cost[i-1][j-1];
-- 
2.43.0


From c501fad441fd13a9274685c83ac9734c7f628afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:07 +0000
Subject: [PATCH 22/35] fix: read UCR search data without overflowing a
 single-precision variable

---
 src/lib/trillionDTW.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lib/trillionDTW.cpp b/src/lib/trillionDTW.cpp
index b90a9f2..51a781e 100644
--- a/src/lib/trillionDTW.cpp
+++ b/src/lib/trillionDTW.cpp
@@ -253,6 +253,7 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
 
 
     data_t d;
+    double v;            /// fscanf stores a double whatever data_t is
     long long i , j;
     data_t ex , ex2 , mean, std;
     int m=-1;
@@ -351,8 +352,9 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
     j = 0;
     ex = ex2 = 0;
 
-    while(fscanf(qp,"%lf",&d) != EOF && i < m)
+    while(fscanf(qp,"%lf",&v) != EOF && i < m)
     {
+        d = v;
         ex += d;
         ex2 += d*d;
         q[i] = d;
@@ -409,8 +411,8 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
         ep=0;
         if (it==0)
         {   for(k=0; k<m-1; k++)
-                if (fscanf(fp,"%lf",&d) != EOF)
-                    buffer[k] = d;
+                if (fscanf(fp,"%lf",&v) != EOF)
+                    buffer[k] = v;
         }
         else
         {   for(k=0; k<m-1; k++)
@@ -420,9 +422,9 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
         /// Read buffer of size EPOCH or when all data has been read.
         ep=m-1;
         while(ep<EPOCH)
-        {   if (fscanf(fp,"%lf",&d) == EOF)
+        {   if (fscanf(fp,"%lf",&v) == EOF)
                 break;
-            buffer[ep] = d;
+            buffer[ep] = v;
             ep++;
         }
 
-- 
2.43.0


From a8af7d9e03229b3fd91ef52a97615eca4c97142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:51 +0000
Subject: [PATCH 23/35] fix: order candidates at equal infinite distances by
 position

---
 src/TimeSeries.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries.hpp b/src/TimeSeries.hpp
index 19e8277..6f4c044 100644
--- a/src/TimeSeries.hpp
+++ b/src/TimeSeries.hpp
@@ -204,7 +204,7 @@ struct candidate_time_series_t
 
   bool operator<(const candidate_time_series_t& rhs) const 
   {
-    if (std::abs(dist - rhs.dist) < EPS)
+    if (dist == rhs.dist || std::abs(dist - rhs.dist) < EPS)
     {
       if (data.getIndex() == rhs.data.getIndex())
       {
-- 
2.43.0


From 2081a7e01d4ce6869b5a5456d523a1b6817c53ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:50 +0000
Subject: [PATCH 24/35] fix: release the buffers of a UCR search

---
 src/lib/trillionDTW.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/trillionDTW.cpp b/src/lib/trillionDTW.cpp
index 51a781e..5310008 100644
--- a/src/lib/trillionDTW.cpp
+++ b/src/lib/trillionDTW.cpp
@@ -540,6 +540,8 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
     fclose(fp);
 
     free(q);
+    free(order);
+    free(buffer);
     free(u);
     free(l);
     free(uo);
-- 
2.43.0


From 79a1d2689dc37faccae97bd14a41c62969459c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:50 +0000
Subject: [PATCH 25/35] fix: release the answer that declines to leave the
 command line

---
 cli/OnexCLI.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/OnexCLI.cpp b/cli/OnexCLI.cpp
index d685ab8..6a9f292 100644
--- a/cli/OnexCLI.cpp
+++ b/cli/OnexCLI.cpp
@@ -544,6 +544,7 @@ bool wantToQuitByEOF()
     }
   }
   while (strcmp(raw_line, "n") != 0);
+  free(raw_line);
   return false;
 }
 
-- 
2.43.0


From 4b8163c6a92bf2e5f17ad4510de57103a94793c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:50 +0000
Subject: [PATCH 26/35] fix: compare the distances of candidates exactly, so
 that their order is transitive

---
 src/TimeSeries.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries.hpp b/src/TimeSeries.hpp
index 6f4c044..4907900 100644
--- a/src/TimeSeries.hpp
+++ b/src/TimeSeries.hpp
@@ -204,7 +204,7 @@ struct candidate_time_series_t
 
   bool operator<(const candidate_time_series_t& rhs) const 
   {
-    if (dist == rhs.dist || std::abs(dist - rhs.dist) < EPS)
+    if (dist == rhs.dist)
     {
       if (data.getIndex() == rhs.data.getIndex())
       {
-- 
2.43.0


From 3917d29b10ef30d980a083650aba52ae58699351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:50 +0000
Subject: [PATCH 27/35] fix: load every value that is written: subnormal,
 infinite and not-a-number ones

---
 src/Group.cpp                  |  2 +-
 src/GroupableTimeSeriesSet.cpp |  2 +-
 src/TimeSeries.cpp             | 34 ++++++++++++++++++++++++++++++++++
 src/TimeSeries.hpp             | 14 ++++++++++++++
 src/TimeSeriesSet.cpp          |  2 +-
 5 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/src/Group.cpp b/src/Group.cpp
index 9fbf91b..3982cce 100644
--- a/src/Group.cpp
+++ b/src/Group.cpp
@@ -106,7 +106,7 @@ void Group::loadGroup(ifstream &fin)
   this->centroid = TimeSeries(this->memberLength);
 
   for (int i = 0; i < this->memberLength; i++) {
-    fin >> this->centroid[i];
+    readValue(fin, this->centroid[i]);
   }
 
   if (!(fin >> cnt) || cnt <= 0) {
diff --git a/src/GroupableTimeSeriesSet.cpp b/src/GroupableTimeSeriesSet.cpp
index e706257..c034ea9 100644
--- a/src/GroupableTimeSeriesSet.cpp
+++ b/src/GroupableTimeSeriesSet.cpp
@@ -83,7 +83,7 @@ int GroupableTimeSeriesSet::loadGroups(const string& path)
   {
     int version, grpItemCount, grpItemLength;
     data_t threshold;
-    if (!(fin >> version >> threshold >> grpItemCount >> grpItemLength))
+    if (!(fin >> version) || !readValue(fin, threshold) || !(fin >> grpItemCount >> grpItemLength))
     {
       throw OnexException("Invalid group file");
     }
diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index 2a4dd93..80a8f8f 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -8,9 +8,43 @@
 #include <sstream>
 #include <iomanip>
 #include <limits>
+#include <cerrno>
+#include <cstdlib>
+#include <stdexcept>
 
 namespace onex {
 
+double parseValue(const std::string& text)
+{
+  char* end;
+  errno = 0;
+  double value = std::strtod(text.c_str(), &end);
+  if (end == text.c_str())
+  {
+    throw std::invalid_argument("parseValue");
+  }
+  // ERANGE is also reported for subnormal numbers
+  if (errno == ERANGE && (value == 0 || std::isinf(value)))
+  {
+    throw std::out_of_range("parseValue");
+  }
+  return value;
+}
+
+std::istream& readValue(std::istream& in, data_t& value)
+{
+  std::string text;
+  if (in >> text)
+  {
+    char* end;
+    value = (data_t)std::strtod(text.c_str(), &end);
+    if (*end != '\0')
+    {
+      in.setstate(std::ios::failbit);
+    }
+  }
+  return in;
+}
 
 TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 {
diff --git a/src/TimeSeries.hpp b/src/TimeSeries.hpp
index 4907900..ae22690 100644
--- a/src/TimeSeries.hpp
+++ b/src/TimeSeries.hpp
@@ -21,6 +21,20 @@ typedef double data_t;
 
 int calculateWarpingBandSize(int length, double ratio);
 
+/**
+ *  @brief convert text to a number, as std::stod does, but also accept subnormal numbers
+ *
+ *  @throw std::invalid_argument if the text is not a number
+ *  @throw std::out_of_range if the number does not fit into double
+ */
+double parseValue(const std::string& text);
+
+/**
+ *  @brief read a number that was written by operator<<, which may be infinite,
+ *         subnormal or not a number
+ */
+std::istream& readValue(std::istream& in, data_t& value);
+
 /**
  *  @brief header of a time series
  *
diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 8e555d5..33e7e3a 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -139,7 +139,7 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
         {
           try
           {
-            data[row * (length - startCol) + (col - startCol)] = (data_t)std::stod(*tok_iter);
+            data[row * (length - startCol) + (col - startCol)] = (data_t)parseValue(*tok_iter);
           }
           catch (const std::invalid_argument& e)
           {
-- 
2.43.0


From 806c6ca961f577e4c121d8a95a70a15822c44e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:02 +0000
Subject: [PATCH 28/35] fix: keep only the values that are read while loading a
 dataset

The buffer for rows x columns was sized before any row but the first was
read. The product of the number of lines and the number of columns overflows
int for a file of a few hundred kilobytes (one row of 65536 values and 65535
blank lines), and the values were written behind the buffer, or the
allocation failed with something else than a dataset error.
---
 src/TimeSeriesSet.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index 33e7e3a..ea2aea6 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <string>
+#include <vector>
 #include <fstream>
 #include <iostream>
 #include <cstring>
@@ -96,6 +97,7 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
 
   int length = -1;
   string line;
+  std::vector<data_t> values;
   boost::char_separator<char> sep(separators.c_str());
   typedef boost::tokenizer<boost::char_separator<char>> tokenizer;
 
@@ -119,9 +121,6 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
           this->clearData();
           throw OnexException("Starting column is out of range");
         }
-        this->data = new data_t[maxNumRow * length];
-        memset(this->data, 0, maxNumRow * length * sizeof(data_t));
-
       }
       else if (length != std::distance(tokens.begin(), tokens.end()))
       {
@@ -139,7 +138,7 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
         {
           try
           {
-            data[row * (length - startCol) + (col - startCol)] = (data_t)parseValue(*tok_iter);
+            values.push_back((data_t)parseValue(*tok_iter));
           }
           catch (const std::invalid_argument& e)
           {
@@ -174,6 +173,8 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
     throw OnexException("File contains no time series");
   }
 
+  this->data = new data_t[values.size()];
+  std::copy(values.begin(), values.end(), this->data);
   this->itemLength = length - startCol;
   this->filePath = filePath;
 
-- 
2.43.0


From 04720f0d1d2dcab91f9ce0f554bda1aca3f45e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:58 +0000
Subject: [PATCH 29/35] fix: search for queries longer than a chunk of the data

A query of more than 100000 points overran the buffers that hold a chunk, and
one of 100001 points divided by zero. The number of points before a chunk
exceeded int for files of more than 2^31 points.
---
 src/lib/trillionDTW.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/trillionDTW.cpp b/src/lib/trillionDTW.cpp
index 5310008..9679fe5 100644
--- a/src/lib/trillionDTW.cpp
+++ b/src/lib/trillionDTW.cpp
@@ -264,8 +264,9 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
     data_t *buffer, *u_buff, *l_buff;
     Index *Q_tmp;
 
-    int EPOCH = 100000;
     m=queryLength;
+    /// a chunk holds at least one window
+    int EPOCH = max(100000, 2*m);
 
     t1 = clock();
     fp = fopen(dataPath,"r");
@@ -402,7 +403,8 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
     j = 0;          /// the starting index of the data in the circular array, t
     ex = ex2 = 0;
     bool done = false;
-    int it=0, ep=0, k=0;
+    long long it=0; /// number of the current chunk
+    int ep=0, k=0;
     long long I;    /// the starting index of the data in current chunk of size EPOCH
 
     while(!done)
@@ -436,7 +438,7 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
         {   lower_upper_lemire(buffer, ep, r, l_buff, u_buff);
 
             /// Just for printing a dot for approximate a million point. Not much accurate.
-            if (it%(1000000/(EPOCH-m+1))==0)
+            if (it%max(1, 1000000/(EPOCH-m+1))==0)
                 fprintf(stderr,".");
 
             /// Do main task here..
-- 
2.43.0


From 0285d5e8d090ed6f1b82569b609853bea66eec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:50 +0000
Subject: [PATCH 30/35] fix: reject values with trailing text in a dataset

The beginning of such a value was taken for the whole: 1,5 was read as 1,
2020-01-01 as 2020 and 12abc as 12.
---
 src/TimeSeries.cpp | 8 +++++++-
 src/TimeSeries.hpp | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index 80a8f8f..b688a95 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -8,6 +8,7 @@
 #include <sstream>
 #include <iomanip>
 #include <limits>
+#include <cctype>
 #include <cerrno>
 #include <cstdlib>
 #include <stdexcept>
@@ -19,7 +20,12 @@ double parseValue(const std::string& text)
   char* end;
   errno = 0;
   double value = std::strtod(text.c_str(), &end);
-  if (end == text.c_str())
+  bool isNumber = end != text.c_str();
+  while (std::isspace((unsigned char)*end))
+  {
+    end++;
+  }
+  if (!isNumber || end != text.c_str() + text.size())
   {
     throw std::invalid_argument("parseValue");
   }
diff --git a/src/TimeSeries.hpp b/src/TimeSeries.hpp
index ae22690..3c44216 100644
--- a/src/TimeSeries.hpp
+++ b/src/TimeSeries.hpp
@@ -23,6 +23,7 @@ int calculateWarpingBandSize(int length, double ratio);
 
 /**
  *  @brief convert text to a number, as std::stod does, but also accept subnormal numbers
+ *         and reject numbers that are followed by anything else than blanks
  *
  *  @throw std::invalid_argument if the text is not a number
  *  @throw std::out_of_range if the number does not fit into double
-- 
2.43.0


From 3400ace3a0e777a4594b873002c0860018b05e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:50 +0000
Subject: [PATCH 31/35] fix: reject command arguments with text behind a number

The beginning of such an argument was taken for the whole: 'unload 1x' unloaded
dataset 1, 'match 0 0 1.9' matched series 1.
---
 cli/OnexCLI.cpp | 50 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/cli/OnexCLI.cpp b/cli/OnexCLI.cpp
index 6a9f292..8daa4e9 100644
--- a/cli/OnexCLI.cpp
+++ b/cli/OnexCLI.cpp
@@ -52,6 +52,22 @@ bool tooManyArgs(const vector<string>& args, int limit)
   return false;
 }
 
+// Convert an argument to an integer. Nothing but blanks may follow the number.
+int toInt(const string& arg)
+{
+  size_t length;
+  int value = stoi(arg, &length);
+  while (length < arg.size() && isspace((unsigned char)arg[length]))
+  {
+    length++;
+  }
+  if (length != arg.size())
+  {
+    throw invalid_argument("toInt");
+  }
+  return value;
+}
+
 /**************************************************************************
  * HOW TO CREATE A NEW COMMAND
  *
@@ -80,8 +96,8 @@ MAKE_COMMAND(LoadDataset,
     }
 
     string filePath = args[1];
-    int maxNumRow = args.size() > 2 ? stoi(args[2]) : 0;
-    int startCol  = args.size() > 3 ? stoi(args[3]) : 0;
+    int maxNumRow = args.size() > 2 ? toInt(args[2]) : 0;
+    int startCol  = args.size() > 3 ? toInt(args[3]) : 0;
     string separators = args.size() > 4 ? args[4] : " ";
 
     onex::dataset_info_t info;
@@ -119,7 +135,7 @@ MAKE_COMMAND(SaveDataset,
       return false;
     }
 
-    int index = stoi(args[1]);
+    int index = toInt(args[1]);
     string filePath = args[2];
     char separator = args.size() == 4 && args[3][0] != '\n' ? args[3][0] : ' ';
   
@@ -146,7 +162,7 @@ MAKE_COMMAND(UnloadDataset,
       return false;
     }
 
-    int index = stoi(args[1]);
+    int index = toInt(args[1]);
 
     gOnexAPI.unloadDataset(index);
 
@@ -245,8 +261,8 @@ MAKE_COMMAND(GroupDataset,
       return false;
     }
 
-    int index = stoi(args[1]);
-    onex::data_t threshold = stod(args[2]);
+    int index = toInt(args[1]);
+    onex::data_t threshold = onex::parseValue(args[2]);
 
     int count = -1;
     TIME_COMMAND(
@@ -274,8 +290,8 @@ MAKE_COMMAND(SaveGroup,
       return false;
     }
 
-    int index = stoi(args[1]);
-    bool groupSizeOnly = args.size() == 4 ? stoi(args[3]) : false;
+    int index = toInt(args[1]);
+    bool groupSizeOnly = args.size() == 4 ? toInt(args[3]) : false;
 
     gOnexAPI.saveGroup(index, args[2], groupSizeOnly);
     cout << "Saved groups of dataset " << index << " to " << args[2] << endl;
@@ -299,7 +315,7 @@ MAKE_COMMAND(LoadGroup,
       return false;
     }
 
-    int index = stoi(args[1]);
+    int index = toInt(args[1]);
 
     int numGroups = gOnexAPI.loadGroup(index, args[2]);
     cout << numGroups << " groups loaded for dataset " << index;
@@ -324,7 +340,7 @@ MAKE_COMMAND(NormalizeDataset,
       return false;
     }
 
-    int index = stoi(args[1]);
+    int index = toInt(args[1]);
 
     gOnexAPI.normalizeDataset(index);
 
@@ -345,8 +361,8 @@ MAKE_COMMAND(PAA,
       return false;
     }
 
-    int index = stoi(args[1]);
-    int blockSize = stoi(args[2]);
+    int index = toInt(args[1]);
+    int blockSize = toInt(args[2]);
 
     onex::dataset_info_t info = gOnexAPI.PAA(index, blockSize);
 
@@ -374,16 +390,16 @@ MAKE_COMMAND(Match,
       return false;
     }
 
-    int db_index = stoi(args[1]);
-    int  q_index = stoi(args[2]);
-    int ts_index = stoi(args[3]);
+    int db_index = toInt(args[1]);
+    int  q_index = toInt(args[2]);
+    int ts_index = toInt(args[3]);
     int start = -1;
     int end = -1;
 
     if (args.size() > 4)
     {
-      start = stoi(args[4]);
-      end = stoi(args[5]);
+      start = toInt(args[4]);
+      end = toInt(args[5]);
     }
 
     TIME_COMMAND(
-- 
2.43.0


From 811c716550c9243b82b9a2e612b34e23468835cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:22 +0000
Subject: [PATCH 32/35] fix: keep a dataset empty when memory runs out while it
 is loaded

The number of series was counted up while the file was read, and left behind
without data when an allocation failed.
---
 src/TimeSeriesSet.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/TimeSeriesSet.cpp b/src/TimeSeriesSet.cpp
index ea2aea6..def65f7 100644
--- a/src/TimeSeriesSet.cpp
+++ b/src/TimeSeriesSet.cpp
@@ -101,8 +101,8 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
   boost::char_separator<char> sep(separators.c_str());
   typedef boost::tokenizer<boost::char_separator<char>> tokenizer;
 
-  this->itemCount = 0;
-  for (int row = 0; row < maxNumRow; row++, this->itemCount++)
+  int itemCount = 0;
+  for (int row = 0; row < maxNumRow; row++, itemCount++)
   {
     // Read and process line by line
     if (getline(f, line))
@@ -167,16 +167,17 @@ void TimeSeriesSet::loadData(const string& filePath, int maxNumRow,
     throw OnexException("Error while reading file");
   }
 
-  if (this->itemCount == 0)
+  if (itemCount == 0)
   {
     f.close();
     throw OnexException("File contains no time series");
   }
 
+  this->filePath = filePath;
   this->data = new data_t[values.size()];
   std::copy(values.begin(), values.end(), this->data);
+  this->itemCount = itemCount;
   this->itemLength = length - startCol;
-  this->filePath = filePath;
 
   f.close();
 }
-- 
2.43.0


From 8a38ad5aa143fc973cca21a3e180ee24803fccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:22 +0000
Subject: [PATCH 33/35] fix: release what is being loaded or grouped when
 memory runs out

A dataset was only released on errors of its own, and a new group not at all
when the list of groups could not grow.
---
 src/LocalLengthGroupSpace.cpp | 12 ++++++++----
 src/OnexAPI.cpp               | 14 +++++---------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/LocalLengthGroupSpace.cpp b/src/LocalLengthGroupSpace.cpp
index 878dd86..40035c1 100644
--- a/src/LocalLengthGroupSpace.cpp
+++ b/src/LocalLengthGroupSpace.cpp
@@ -1,6 +1,7 @@
 #include "LocalLengthGroupSpace.hpp"
 
 #include <vector>
+#include <memory>
 #include <algorithm>
 #include <cmath>
 #include <iostream>
@@ -89,8 +90,10 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
       {
         bestSoFarIndex = this->groups.size();
         int newGroupIndex = this->groups.size();
-        this->groups.push_back(new Group(newGroupIndex, this->length, this->subTimeSeriesCount,
-                                         this->dataset, this->memberMap));
+        std::unique_ptr<Group> newGroup(new Group(newGroupIndex, this->length, this->subTimeSeriesCount,
+                                                  this->dataset, this->memberMap));
+        this->groups.push_back(newGroup.get());
+        newGroup.release();
         this->groups[bestSoFarIndex]->setCentroid(idx, start);
       }
 
@@ -145,8 +148,9 @@ int LocalLengthGroupSpace::loadGroups(ifstream &fin)
   this->memberMap.assign(this->memberMap.size(), group_membership_t());
   for (unsigned int i = 0; i < numberOfGroups; i++)
   {
-    Group* grp = new Group(i, this->length, this->subTimeSeriesCount, this->dataset, this->memberMap);
-    this->groups.push_back(grp);
+    std::unique_ptr<Group> newGroup(new Group(i, this->length, this->subTimeSeriesCount, this->dataset, this->memberMap));
+    this->groups.push_back(newGroup.get());
+    Group* grp = newGroup.release();
     grp->loadGroup(fin);
     numberOfMembers += grp->getCount();
   }
diff --git a/src/OnexAPI.cpp b/src/OnexAPI.cpp
index ebdbc74..7f4c1f6 100644
--- a/src/OnexAPI.cpp
+++ b/src/OnexAPI.cpp
@@ -4,6 +4,8 @@
 #include "GroupableTimeSeriesSet.hpp"
 #include "distance/Distance.hpp"
 
+#include <memory>
+
 using std::string;
 using std::vector;
 
@@ -18,14 +20,8 @@ dataset_info_t OnexAPI::loadDataset(const string& filePath, int maxNumRow,
                                      int startCol, const string& separators)
 {
 
-  GroupableTimeSeriesSet* newSet = new GroupableTimeSeriesSet();
-  try {
-    newSet->loadData(filePath, maxNumRow, startCol, separators);
-  } catch (OnexException& e)
-  {
-    delete newSet;
-    throw e;
-  }
+  std::unique_ptr<GroupableTimeSeriesSet> newSet(new GroupableTimeSeriesSet());
+  newSet->loadData(filePath, maxNumRow, startCol, separators);
 
   int nextIndex = -1;
   for (unsigned int i = 0; i < this->loadedDatasets.size(); i++)
@@ -42,7 +38,7 @@ dataset_info_t OnexAPI::loadDataset(const string& filePath, int maxNumRow,
     this->loadedDatasets.push_back(nullptr);
   }
 
-  this->loadedDatasets[nextIndex] = newSet;
+  this->loadedDatasets[nextIndex] = newSet.release();
   this->datasetCount++;
 
   return this->getDatasetInfo(nextIndex);
-- 
2.43.0


From 213453a700302759a027f16158f50da0bb037c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:22 +0000
Subject: [PATCH 34/35] fix: report failed allocations of the envelope
 computation

The result of malloc was used unchecked.
---
 src/lib/deque.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib/deque.cpp b/src/lib/deque.cpp
index df2117b..8d0f769 100644
--- a/src/lib/deque.cpp
+++ b/src/lib/deque.cpp
@@ -1,12 +1,11 @@
 #include "deque.h"
-#include <stdlib.h>
 
 /// Initial the queue at the begining step of envelop calculation
 deque::deque(int capacity)
 {
     this->capacity = capacity;
     size = 0;
-    data = (int *) malloc(sizeof(int)*capacity);
+    data = new int[capacity];
     f = 0;
     r = capacity-1;
 }
@@ -14,7 +13,7 @@ deque::deque(int capacity)
 /// Destroy the queue
 deque::~deque(void)
 {
-    free(data);
+    delete[] data;
 }
 
 /// Insert to the queue at the back
-- 
2.43.0


From 9c385c142d4a2427e8a54ca78951870484f0985f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:22 +0000
Subject: [PATCH 35/35] fix: survive failed allocations in assignment and
 envelopes of sequences

Assignment freed its data before it allocated new, and freed it again in the
destructor; an envelope that could not be recomputed was taken for valid.
---
 src/TimeSeries.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/TimeSeries.cpp b/src/TimeSeries.cpp
index b688a95..c6aa175 100644
--- a/src/TimeSeries.cpp
+++ b/src/TimeSeries.cpp
@@ -57,22 +57,21 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
   if (this == &other) {
     return *this;
   }
+  data_t* newData = other.data;
+  if (other.isOwnerOfData)
+  {
+    newData = new data_t[other.length];
+    memcpy(newData, other.data, other.length * sizeof(data_t));
+  }
   if (isOwnerOfData) {
     delete[] this->data;
   }
+  this->data = newData;
   isOwnerOfData = other.isOwnerOfData;
   index = other.index;
   start = other.start;
   end = other.end;
   length = other.length;
-  if (other.isOwnerOfData)
-  {
-    this->data = new data_t[length];
-    memcpy(this->data, other.data, length * sizeof(data_t));
-  }
-  else {
-    this->data = other.data;
-  }
   keoghCacheValid = false;
   return *this;
 }
@@ -162,6 +161,7 @@ const data_t* TimeSeries::getKeoghUpper(int warpingBand) const
 
 void TimeSeries::generateKeoghLU(int warpingBand) const
 {
+  keoghCacheValid = false;
   delete[] keoghLower;
   keoghLower = nullptr;
   delete[] keoghUpper;
-- 
2.43.0

