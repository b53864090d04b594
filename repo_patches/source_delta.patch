From 97db715908a7b4b92a6db0be0ad754dea2603413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 01/65] fix: extract_ctrs() looped forever on two adjacent
 carets

---
 lib/strfunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/strfunc.cpp b/lib/strfunc.cpp
index fe210a5..e18c9d2 100755
--- a/lib/strfunc.cpp
+++ b/lib/strfunc.cpp
@@ -405,8 +405,8 @@ namespace istat
             {
                 //  don't allow empty substrings
                 osubs.push_back(base + istr.substr(pos+1, next-(pos+1)));
-                pos = next;
             }
+            pos = next;
         }
     }
 
-- 
2.43.0


From 7cf94456b179544c327751b585e677ab1780c9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 02/65] fix: seconds_to_interval() subtracted the unit count
 instead of the seconds it stands for

---
 lib/strfunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/strfunc.cpp b/lib/strfunc.cpp
index e18c9d2..87fe851 100755
--- a/lib/strfunc.cpp
+++ b/lib/strfunc.cpp
@@ -708,7 +708,7 @@ namespace istat
             {
                 size_t n = secs / size;
                 ret << n << itp->str;
-                secs -= n;
+                secs -= n * size;
             }
         }
         std::string rstr = ret.str();
-- 
2.43.0


From 449976b9fbb48bacb76a3340b9f8d86ec36e0e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 03/65] fix: sql_unquote()/js_unquote() dropped quoted NUL
 bytes

---
 lib/strfunc.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/strfunc.cpp b/lib/strfunc.cpp
index 87fe851..5cafc4c 100755
--- a/lib/strfunc.cpp
+++ b/lib/strfunc.cpp
@@ -484,7 +484,6 @@ namespace istat
                     tmp[0] = 8;
                     break;
                 case '0':
-                    //   todo: this won't work!
                     tmp[0] = 0;
                     break;
                 case 'Z':
@@ -494,7 +493,7 @@ namespace istat
                     tmp[0] = *ptr;
                     break;
                 }
-                ss << tmp;
+                ss << tmp[0];
                 quote = false;
             }
             else if (*ptr == '\\')
@@ -504,7 +503,7 @@ namespace istat
             else
             {
                 tmp[0] = *ptr;
-                ss << tmp;
+                ss << tmp[0];
             }
         }
         return ss.str();
@@ -575,14 +574,13 @@ namespace istat
                     tmp[0] = 8;
                     break;
                 case '0':
-                    //  todo: this won't work!
                     tmp[0] = 0;
                     break;
                 default:
                     tmp[0] = *ptr;
                     break;
                 }
-                ss << tmp;
+                ss << tmp[0];
                 quote = false;
             }
             else if (*ptr == '\\')
@@ -592,7 +590,7 @@ namespace istat
             else
             {
                 tmp[0] = *ptr;
-                ss << tmp;
+                ss << tmp[0];
             }
         }
         return ss.str();
-- 
2.43.0


From da5b1956ad22fb51ad4861ef78d00f1507fc5b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 04/65] fix: str_pat_match() mis-skipped the pattern after '*'
 followed by '?'

---
 lib/strfunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/strfunc.cpp b/lib/strfunc.cpp
index 5cafc4c..95e347a 100755
--- a/lib/strfunc.cpp
+++ b/lib/strfunc.cpp
@@ -298,7 +298,7 @@ namespace istat
                         }
                         S.pstr = pos+1;
                         backup.push_back(S);
-                        S.ppat += 2;
+                        S.ppat = npos+1;
                     }
                 }
                 break;
-- 
2.43.0


From 7e568cbbaec53dfe8708c9b1707f0d3d62b076b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 05/65] fix: six-way splitn() reported six fields for five

---
 lib/strfunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/strfunc.cpp b/lib/strfunc.cpp
index 95e347a..4e59fa6 100755
--- a/lib/strfunc.cpp
+++ b/lib/strfunc.cpp
@@ -822,7 +822,7 @@ namespace istat
         {
             return n;
         }
-        if (splitn(o5, ch, o5, o6) == 5)
+        if (splitn(o5, ch, o5, o6) == 1)
         {
             return 5;
         }
-- 
2.43.0


From 636a08b8f0bd599a7a2fa480fa2925899ee6bb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:06 +0000
Subject: [PATCH 06/65] fix: Bucket::sum()/avg() lost double precision and
 flipped -inf to a tiny positive value

---
 lib/Bucket.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/Bucket.cpp b/lib/Bucket.cpp
index 4bfc8de..d328ec7 100644
--- a/lib/Bucket.cpp
+++ b/lib/Bucket.cpp
@@ -8,10 +8,12 @@
 #include <iostream>
 #include <limits>
 
-float stabilizeFloat(float f) {
-    return -std::numeric_limits<float>::infinity() == f
-      ? std::numeric_limits<float>::min()
-      : std::numeric_limits<float>::infinity() == f
+//  Clamp to the (finite) range of a float. The stored precision is kept.
+template<typename T>
+static inline T stabilizeFloat(T f) {
+    return f < -std::numeric_limits<float>::max()
+      ? -std::numeric_limits<float>::max()
+      : f > std::numeric_limits<float>::max()
       ? std::numeric_limits<float>::max()
       : f;
 }
-- 
2.43.0


From 1043246489b481852c97364a9e891330c42a77b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:32 +0000
Subject: [PATCH 07/65] fix: StatFile mapped times before file creation one
 slot too late

Division truncates toward zero, so a time less than one interval before the
creation time landed in slot 0 and wiped the data of that slot.
---
 lib/StatFile.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 1012f11..3b46b39 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -648,9 +648,14 @@ namespace istat
         time_t create_time = fileHeader_->file_create_time;
 
         int round_delta = (round_up && (timestamp % interval)) ? 1 : 0;
-        int64_t bucket_index = ((timestamp - create_time) / interval + round_delta);
+        int64_t bucket_index = (timestamp - create_time) / interval;
+        //  round down, also for times before the file was created
+        if (bucket_index * interval > timestamp - create_time)
+        {
+            --bucket_index;
+        }
 
-        return bucket_index;
+        return bucket_index + round_delta;
     }
 
     time_t StatFile::mapBucketIndexToTime(int64_t bucket_index) const
-- 
2.43.0


From 8533c976cc02dd79efcce4dc5d36d8a8e364224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:47 +0000
Subject: [PATCH 08/65] fix: StatFile::readBuckets returned wrong buckets for a
 start outside the file

A start older than the window read from file position 0 (unordered, newest
data missing); a start later than the newest bucket read arbitrary slots.
---
 lib/StatFile.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 3b46b39..91d3529 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -307,16 +307,22 @@ namespace istat
 
     int64_t StatFile::readBuckets(Bucket *out_bucket_buf, int cnt, int64_t first_bucket) const
     {
-        int64_t first_bucket_file_index = StatFile::mapBucketIndexToFileIndex(first_bucket);
-
-        if (first_bucket_file_index < 0)
+        //  buckets that have fallen out of the file are skipped
+        int64_t earliest_bucket = fileHeader_->last_bucket - bucketCount_ + 1;
+        if (first_bucket < earliest_bucket)
         {
-            if (cnt+first_bucket_file_index < 0)
+            if (cnt <= earliest_bucket - first_bucket)
             {
                 return 0;
             }
-            cnt += first_bucket_file_index;   //  first_bucket_file_index is negative
-            first_bucket_file_index = 0;
+            cnt -= earliest_bucket - first_bucket;
+            first_bucket = earliest_bucket;
+        }
+        int64_t first_bucket_file_index = StatFile::mapBucketIndexToFileIndex(first_bucket);
+        if (first_bucket_file_index < 0)
+        {
+            //  later than anything in the file
+            return 0;
         }
         if (cnt > bucketCount_)
         {
-- 
2.43.0


From c32004719c24142e7d53228d0c9a4d1a403a19ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:18 +0000
Subject: [PATCH 09/65] fix: CopyMmap handed out uninitialised memory for the
 part of a mapping past end of file

A short or empty file opened for writing got heap garbage as its header,
which was then judged and written back.
---
 lib/Mmap.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/Mmap.cpp b/lib/Mmap.cpp
index 0ed8744..1beba2a 100644
--- a/lib/Mmap.cpp
+++ b/lib/Mmap.cpp
@@ -121,7 +121,13 @@ namespace istat
             ptr->size = size;
             ptr->fd = fd;
             this->seek(fd, offset, SEEK_SET);
-            this->read(fd, ptr + 1, size);
+            ssize_t got = this->read(fd, ptr + 1, size);
+            if (got < 0)
+            {
+                got = 0;
+            }
+            //  what is not in the file reads as zero
+            memset((char *)(ptr + 1) + got, 0, size - got);
             __sync_add_and_fetch(&nMaps_, (int64_t)1);
             return ptr + 1;
 #else
-- 
2.43.0


From e3e3e85663bb1a0155d652e9a6f7c272b04d1f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:18 +0000
Subject: [PATCH 10/65] fix: StatFile::open changed files it then refused to
 open

The size stored in an unvalidated header was used to truncate/extend the
file before the magic, version and page size were checked, and the unsigned
comparison also cut files that are longer than the header says. Validate
first, and only ever extend. A header without pages or interval is refused
too, instead of dividing by zero later.
---
 lib/StatFile.cpp | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 91d3529..12e704a 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -125,20 +125,6 @@ namespace istat
             closefd();
             throw std::runtime_error(std::string("Could not map header: ") + path);
         }
-        size_t wantFileSize = fileHeader_->page_size * (fileHeader_->page_count + 1);
-        if (0 < wantFileSize - off)
-        {
-            Log(LL_Warning, "istat") << "File" << path << "is too short; extending from"
-                << off << "to" << wantFileSize;
-            int r = mm_->truncate(fd_, wantFileSize);
-            if (r < 0)
-            {
-                closefd();
-                throw std::runtime_error(std::string("Could not extend ") + path + " to "
-                    + boost::lexical_cast<std::string>(wantFileSize) + " bytes");
-            }
-            off = mm_->seek(fd_, 0, 2);
-        }
         Header &hdr = *(Header *)fileHeader_;
         if (memcmp(file_magic, hdr.magic, sizeof(file_magic)))
         {
@@ -163,6 +149,25 @@ namespace istat
                 "size" + boost::lexical_cast<std::string>(hdr.hdr_size) + 
                 "expected" + boost::lexical_cast<std::string>(sizeof(Header)));
         }
+        if (hdr.page_count < 1 || hdr.cfg_interval < 1)
+        {
+            closefd();
+            throw std::runtime_error(std::string("Corrupt header: ") + path);
+        }
+        ptrdiff_t wantFileSize = fileHeader_->page_size * (fileHeader_->page_count + 1);
+        if (wantFileSize > off)
+        {
+            Log(LL_Warning, "istat") << "File" << path << "is too short; extending from"
+                << off << "to" << wantFileSize;
+            int r = mm_->truncate(fd_, wantFileSize);
+            if (r < 0)
+            {
+                closefd();
+                throw std::runtime_error(std::string("Could not extend ") + path + " to "
+                    + boost::lexical_cast<std::string>(wantFileSize) + " bytes");
+            }
+            off = mm_->seek(fd_, 0, 2);
+        }
         if (hdr.cr_version < CUR_HDR_VERSION)
         {
             refreshHeader(hdr);
-- 
2.43.0


From f96ec5b0505a5b26fd5cc5aa082bf3a37cbf6097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:58 +0000
Subject: [PATCH 11/65] fix: an interrupted StatFile creation left a file that
 could never be opened again

The file was extended to full size before its header was written, so a
crash or full disk in between left a full-size file with a zero header.
Write the header first; a short file is extended by the next open. Also
clamp the interval before dividing by it.
---
 lib/StatFile.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 12e704a..cb579a0 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -229,6 +229,10 @@ namespace istat
         {
             istat::istattime(&lTime);
         }
+        if (hdr.cfg_interval < 1)
+        {
+            hdr.cfg_interval = 1;
+        }
         lTime -= lTime % hdr.cfg_interval;
         hdr.file_create_time = lTime;
         hdr.last_cumulative_clear_time = lTime;
@@ -240,10 +244,6 @@ namespace istat
         {
             throw std::runtime_error("Bad file flags in writeNewHeader()");
         }
-        if (hdr.cfg_interval < 1)
-        {
-            hdr.cfg_interval = 1;
-        }
         strncpy(hdr.unit, init.unit, sizeof(hdr.unit));
         strncpy(hdr.name, path.c_str(), sizeof(hdr.name));
         hdr.name[sizeof(hdr.name) - 1] = 0;
@@ -271,20 +271,23 @@ namespace istat
         hdr.first_bucket = 0;
         hdr.last_bucket = 0;
         hdr.last_time = 0;
-        int i = mm_->truncate(fd_, 0);
-        if (i >= 0)
-        {
-            i = mm_->truncate(fd_, hdr.page_size * (hdr.page_count + 1));
-        }
-        if (i < 0)
+        //  The header goes first: an interrupted creation must leave a file that
+        //  is empty (and created again) or too short (and extended) when opened 
+        //  next, never a full-size file without header.
+        if (mm_->truncate(fd_, 0) < 0)
         {
             throw std::runtime_error(std::string("Could not allocate space for: ") + path);
         }
         mm_->seek(fd_, 0, 0);
         if (sizeof(Header) != mm_->write(fd_, &hdr, sizeof(hdr)))
         {
+            mm_->truncate(fd_, 0);
             throw std::runtime_error(std::string("Could not prepare header for: ") + path);
         }
+        if (mm_->truncate(fd_, hdr.page_size * (hdr.page_count + 1)) < 0)
+        {
+            throw std::runtime_error(std::string("Could not allocate space for: ") + path);
+        }
     }
 
     int64_t StatFile::firstBucket() const
-- 
2.43.0


From c3833b761ef2ab17b0cb2839a04c52b9fe211508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:58 +0000
Subject: [PATCH 12/65] fix: trailing files wrote outside the mapped page

flushOneExpBucket() used the slot of the flushed bucket and of the one a
season earlier without checking that they are still in the file, blended
with whatever stale bucket occupies that slot, and kept a pointer to a page
that mapping the second one may unmap.
---
 lib/StatFile.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index cb579a0..16d7b06 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -604,16 +604,25 @@ namespace istat
         {
             int64_t ix = mapTimeToBucketIndex(eb0.time());
             int64_t oix = mapTimeToBucketIndex(eb0.time() - fileHeader_->season);
-            Bucket *wb = writableBucket(ix);
-            Bucket const &o = bucket(oix);
-            if (o.time() > 0)
+            //  a bucket that has fallen out of the file in the meantime is dropped
+            if (isBucketIndexInFile(ix))
             {
-                *wb = o;
-                wb->expUpdate(eb0, fileHeader_->lambda);
-            }
-            else
-            {
-                *wb = eb0;
+                //  Copy the old bucket: mapping the new one may unmap its page. 
+                //  A slot with another time was not written one season ago.
+                Bucket blended(true);
+                if (isBucketIndexInFile(oix))
+                {
+                    blended = bucket(oix);
+                }
+                if (blended.time() > 0 && mapTimeToBucketIndex(blended.time()) == oix)
+                {
+                    blended.expUpdate(eb0, fileHeader_->lambda);
+                }
+                else
+                {
+                    blended = eb0;
+                }
+                *writableBucket(ix) = blended;
             }
         }
         //  must move one over
-- 
2.43.0


From 03bee7999ca26ef9447bb5aec5a082c29c4a4d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:40 +0000
Subject: [PATCH 13/65] fix: reopened collated counters overwrote recorded
 intervals with zeros

The window opened by the first event of a counter starts with intervals
nothing is known about. They were written over what the file holds for
them, and counted as zero samples in the coarser files.
---
 daemon/StatCounter.cpp | 21 +++++++++++++++++----
 daemon/StatCounter.h   |  1 +
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 2e6ff2c..8cbe6a3 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -32,14 +32,16 @@ DebugOption debugRejectedCounters("rejectedCounters");
 StatCounter::CollationInfo::CollationInfo()
     : bucket(true),
     writes(0),
-    time(0)
+    time(0),
+    leading(false)
 {
 }
 
 StatCounter::CollationInfo::CollationInfo(time_t t)
     : bucket(istat::Bucket(0, 0, 0, 0, 0, t)),
     writes(0),
-    time(t)
+    time(t),
+    leading(false)
 {
 }
 
@@ -220,6 +222,8 @@ void StatCounter::record(time_t time, double value, double valueSq, double min,
                 for(size_t i = 0; i != BUCKETS_PER_COLLATION_WINDOW; ++i)
                 {
                     collations_[(BUCKETS_PER_COLLATION_WINDOW - 1) - i] = CollationInfo(time - (i * collationInterval_));
+                    //  nothing is known about the intervals before the first event
+                    collations_[(BUCKETS_PER_COLLATION_WINDOW - 1) - i].leading = true;
                 }
             }
             else
@@ -233,6 +237,7 @@ void StatCounter::record(time_t time, double value, double valueSq, double min,
         istat::Bucket &bucket(collation.bucket);
         bucket.collatedUpdate(value / double(collationInterval_), time);
         ++collation.writes;
+        collation.leading = false;
 
         // Only update the statfile on power-of-two updates.
         if((collation.writes & (collation.writes - 1)) == 0)
@@ -348,7 +353,15 @@ bool StatCounter::shiftCollated(time_t t)
         for(size_t i = 0; i != BUCKETS_PER_COLLATION_WINDOW; ++i)
         {
             istat::Bucket &bucket(collations_[i].bucket);
-            counters_.begin()->file->updateBucket(bucket);
+            if(collations_[i].leading)
+            {
+                // Don't replace what was recorded before this counter was opened.
+                counters_.begin()->file->rawUpdateBucket(bucket, istat::RAWUP_ONLY_IF_EMPTY);
+            }
+            else
+            {
+                counters_.begin()->file->updateBucket(bucket);
+            }
         }
         // Aggregate oldest bucket into coarser statfiles.
         for(std::vector<OneCounter>::iterator
@@ -357,7 +370,7 @@ bool StatCounter::shiftCollated(time_t t)
             ptr != end;
             ++ptr)
         {
-            if(ptr != counters_.begin())
+            if(ptr != counters_.begin() && !collations_[0].leading)
             {
                 ptr->file->updateBucket(collations_[0].bucket);
             }
diff --git a/daemon/StatCounter.h b/daemon/StatCounter.h
index 85d5847..1c70495 100644
--- a/daemon/StatCounter.h
+++ b/daemon/StatCounter.h
@@ -56,6 +56,7 @@ private:
         istat::Bucket bucket;
         uint64_t writes;
         time_t time;
+        bool leading;
 
         CollationInfo();
         CollationInfo(time_t t);
-- 
2.43.0


From 6e822ff4b145f14802ceb0d651da07c089504749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 14/65] fix: an empty range with one sample requested divided
 by zero

---
 daemon/StatCounter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 8cbe6a3..382e82e 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -593,7 +593,7 @@ boost::shared_ptr<istat::StatFile> StatCounter::pickTrailingStatFile(time_t seas
 //  samples desired.
 void StatCounter::normalizeRange(time_t &start, time_t &end, time_t &interval, size_t maxSamples)
 {
-    if (maxSamples == 1)
+    if (maxSamples == 1 && end > start)
     {
         //  do a single bucket!
         interval = end - start;
-- 
2.43.0


From c381c51a8cb9c00086fc3c557c5797047dfc5903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 15/65] fix: reducing a range with a leading gap returned a
 bucket at time 0

---
 daemon/StatCounter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 382e82e..37707a2 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -758,7 +758,11 @@ void StatCounter::reduce(std::vector<istat::Bucket> &buckets, time_t startTime,
         istat::Bucket &bucket(buckets[i]);
         if (bucket.time() >= nextTime)
         {
-            appendReduced(result, reduction, currentTime, collatedBucketCount);
+            //  there may be nothing before the first bucket
+            if (reduction.time() > 0)
+            {
+                appendReduced(result, reduction, currentTime, collatedBucketCount);
+            }
 
             reduction = istat::Bucket(true);
             //  death detection counter -- paranoia if bTime == MAX_INT or something!
-- 
2.43.0


From 6f7cb7cdb06043a85a6eabbefb47e7a9dbb3831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:41 +0000
Subject: [PATCH 16/65] fix: very long select ranges truncated the bucket count
 or allocated it all

---
 daemon/StatCounter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 37707a2..405587c 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <algorithm>
+#include <limits.h>
 #include <istat/istattime.h>
 #include <boost/foreach.hpp>
 #include <boost/algorithm/string/replace.hpp>
@@ -692,11 +693,12 @@ namespace
 void StatCounter::readBucketsFromFile(boost::shared_ptr<istat::StatFile> sf, time_t start_time, time_t end_time, std::vector<istat::Bucket> &oBuckets)
 {
     int64_t start_index = sf->mapTimeToBucketIndex(start_time, /* round up */ false);
-    int count = sf->numBucketsBetween(start_time, end_time, /* round up */ false);
+    int64_t count = std::min<int64_t>(sf->numBucketsBetween(start_time, end_time, /* round up */ false), INT_MAX);
 
     if (count > 0)
     {
-    	oBuckets.resize(count);
+    	//  the file never returns more than all it holds, however long the range is
+    	oBuckets.resize(std::min<int64_t>(count, sf->settings().numSamples));
     	int64_t n = sf->readBuckets(&oBuckets[0], count, start_index);
     	oBuckets.resize(n);
     	time_t interval = sf->settings().intervalTime;
-- 
2.43.0


From f88b765346e740e37f580b736a61ecf2e4a21770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:41 +0000
Subject: [PATCH 17/65] fix: an end time near the end of time overflowed and
 failed an assertion

---
 daemon/StatCounter.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 405587c..a0c5846 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <algorithm>
+#include <limits>
 #include <limits.h>
 #include <istat/istattime.h>
 #include <boost/foreach.hpp>
@@ -589,6 +590,21 @@ boost::shared_ptr<istat::StatFile> StatCounter::pickTrailingStatFile(time_t seas
     return boost::shared_ptr<istat::StatFile>((istat::StatFile*)0);
 }
 
+namespace
+{
+    //  next multiple of interval, unless time_t can't represent it
+    time_t roundUpTime(time_t t, time_t interval)
+    {
+        time_t over = t % interval;
+        if (!over)
+        {
+            return t;
+        }
+        t -= over;
+        return t > std::numeric_limits<time_t>::max() - interval ? t : t + interval;
+    }
+}
+
 //  Interval starts out as the native interval (bucket size) of the file,
 //  and can be modified to the desired resolution to hit the number of
 //  samples desired.
@@ -599,8 +615,7 @@ void StatCounter::normalizeRange(time_t &start, time_t &end, time_t &interval, s
         //  do a single bucket!
         interval = end - start;
         start = start - (start % interval);
-        time_t endOverrun = (end % interval);
-        end = end - endOverrun + (endOverrun ? interval : 0);
+        end = roundUpTime(end, interval);
         //  make sure there's only one bucket! It may be off by 1/2 the interval, but that's OK
         interval = end - start;
         return;
@@ -615,8 +630,7 @@ void StatCounter::normalizeRange(time_t &start, time_t &end, time_t &interval, s
     // initial normalization
     start = start - (start % interval);
 
-    time_t endOverrun = (end % interval);
-    end = end - endOverrun + (endOverrun ? interval : 0);
+    end = roundUpTime(end, interval);
 
     assert(end >= start);
     if (!maxSamples || (size_t)((end - start)/interval) <= maxSamples)
@@ -668,8 +682,7 @@ void StatCounter::normalizeRange(time_t &start, time_t &end, time_t &interval, s
     // final normalization
     start = start - (start % interval);
 
-    endOverrun = (end % interval);
-    end = end - endOverrun + (endOverrun ? interval : 0);
+    end = roundUpTime(end, interval);
 }
 
 namespace
-- 
2.43.0


From 51831aa8e40102b0c0a2f9c926ae3dd0b8e1fa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:41 +0000
Subject: [PATCH 18/65] fix: the last events before a counter was closed never
 reached its coarser files

---
 daemon/StatCounter.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index a0c5846..509545c 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -136,18 +136,9 @@ StatCounter::~StatCounter()
     ++countersClosed_;
     if(isCollated_)
     {
-        time_t t = istat::istattime(0);
-        if(t - collations_[BUCKETS_PER_COLLATION_WINDOW - 1].time > 60 * 5)
-        {
-            // Must be recording in the past, or there was a fake time
-            // but it was recently destructed. Just force shift ahead
-            // by the collation length.
-            fullyShiftCollated();
-        }
-        else
-        {
-            maybeShiftCollated(t + (collationInterval_ * BUCKETS_PER_COLLATION_WINDOW / 2));
-        }
+        // Everything that is still being collated has to reach all files now,
+        // because nothing of it is left when the counter is opened again.
+        fullyShiftCollated();
     }
 }
 
-- 
2.43.0


From 6a1cf92252f276261f8c8be20eb79c43cc3698fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:34 +0000
Subject: [PATCH 19/65] fix: intervals without events since a counter was
 opened overwrote recorded ones

---
 daemon/StatCounter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 509545c..967d8b4 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -346,7 +346,7 @@ bool StatCounter::shiftCollated(time_t t)
         for(size_t i = 0; i != BUCKETS_PER_COLLATION_WINDOW; ++i)
         {
             istat::Bucket &bucket(collations_[i].bucket);
-            if(collations_[i].leading)
+            if(!collations_[i].writes)
             {
                 // Don't replace what was recorded before this counter was opened.
                 counters_.begin()->file->rawUpdateBucket(bucket, istat::RAWUP_ONLY_IF_EMPTY);
-- 
2.43.0


From c48184dcdbee2aa211325f01045aa36e850cadd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:07 +0000
Subject: [PATCH 20/65] fix: refuse retention weights that are not a number or
 are followed by junk

---
 daemon/Retention.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daemon/Retention.cpp b/daemon/Retention.cpp
index 5c906c9..d3f78df 100644
--- a/daemon/Retention.cpp
+++ b/daemon/Retention.cpp
@@ -80,7 +80,8 @@ void RetentionPolicy::addInterval(std::string const &str)
     {
         char *end;
         ri.lambda = strtod(lambda.c_str(), &end);
-        if (ri.lambda <= 0 || ri.lambda >= 1)
+        //  written so that NaN fails, too
+        if (*end || !(ri.lambda > 0 && ri.lambda < 1))
         {
             throw std::runtime_error("lambda must be > 0 and < 1 if specified: '" + lambda + "'");
         }
-- 
2.43.0


From ec396a46d9267b9e102de5da0fcd7ac30b59a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:35 +0000
Subject: [PATCH 21/65] fix: an empty line in a UDP packet no longer swallows
 the line after it

---
 daemon/StatServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index a7195e3..a4af436 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -857,9 +857,9 @@ void StatServer::on_udp_recv(boost::system::error_code const &err, size_t bytes)
                     if (off > base + 1)
                     {
                         std::string cmd(&udpBuffer_[base], &udpBuffer_[off]);
-                        base = off + 1;
                         handleCmd(cmd, udpEndpoint_);
                     }
+                    base = off + 1;
                 }
                 ++off;
             }
-- 
2.43.0


From 9085ab5c50c2450fef53f78443f8f63827463b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:16 +0000
Subject: [PATCH 22/65] fix: don't write to an outgoing connection before it is
 established and has sent its initial data

---
 daemon/EagerConnection.cpp | 8 +++++++-
 daemon/EagerConnection.h   | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/daemon/EagerConnection.cpp b/daemon/EagerConnection.cpp
index bac2560..01c76f1 100644
--- a/daemon/EagerConnection.cpp
+++ b/daemon/EagerConnection.cpp
@@ -30,6 +30,7 @@ boost::shared_ptr<ConnectionInfo> EagerConnection::create(boost::asio::io_servic
 
 EagerConnection::EagerConnection(boost::asio::io_service &svc) :
     tryingLater_(false),
+    connecting_(false),
     tryLaterTime_(0),
     backoff_(1),
     successfulWritesDuringBackoff_(1),
@@ -345,6 +346,10 @@ void EagerConnection::tryLater()
 void EagerConnection::startConnect(tcp::endpoint endpoint)
 {
     LogNotice << "Connecting to " << endpoint;
+    {
+        grab aholdof(mutex_);
+        connecting_ = true;
+    }
     socket_.async_connect(endpoint,
 #if BOOST_VERSION >= 106700
         boost::asio::bind_executor(strand_, boost::bind(&EagerConnection::on_connect, Tramp(shared_from_this()),
@@ -360,6 +365,7 @@ void EagerConnection::on_connect(boost::system::error_code const &err, tcp::endp
     {
         LogWarning << "Connected to " << endpoint;
         hasErrorConnect_ = false;
+        connecting_ = false;
         if (initialData_.size())
         {
             outgoing_.insert(outgoing_.begin(), initialData_.begin(), initialData_.end());
@@ -383,7 +389,7 @@ void EagerConnection::startWrite()
     if (socket_.is_open())
     {
         grab aholdof(mutex_);
-        if (outgoing_.size() && !writePending_ && !tryingLater_)
+        if (outgoing_.size() && !writePending_ && !tryingLater_ && !connecting_)
         {
             writeBuf_.swap(outgoing_);
             outgoing_.clear();
diff --git a/daemon/EagerConnection.h b/daemon/EagerConnection.h
index 6db0fb6..8143af6 100644
--- a/daemon/EagerConnection.h
+++ b/daemon/EagerConnection.h
@@ -95,6 +95,8 @@ private:
     bool writePending_;
     bool readPending_;
     bool tryingLater_;
+    //  an outgoing connection that isn't established yet can't be written to
+    bool connecting_;
     bool hasErrorConnect_;
     time_t tryLaterTime_;
     int backoff_;
-- 
2.43.0


From dd88c040fed519677032bf9d15769c1104a2295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:16 +0000
Subject: [PATCH 23/65] fix: hold the connection lock when queueing the initial
 data

---
 daemon/EagerConnection.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/daemon/EagerConnection.cpp b/daemon/EagerConnection.cpp
index 01c76f1..d63ab17 100644
--- a/daemon/EagerConnection.cpp
+++ b/daemon/EagerConnection.cpp
@@ -365,10 +365,14 @@ void EagerConnection::on_connect(boost::system::error_code const &err, tcp::endp
     {
         LogWarning << "Connected to " << endpoint;
         hasErrorConnect_ = false;
-        connecting_ = false;
-        if (initialData_.size())
         {
-            outgoing_.insert(outgoing_.begin(), initialData_.begin(), initialData_.end());
+            //  other threads may be in writeOut()
+            grab aholdof(mutex_);
+            connecting_ = false;
+            if (initialData_.size())
+            {
+                outgoing_.insert(outgoing_.begin(), initialData_.begin(), initialData_.end());
+            }
         }
         onConnect_();
         startWrite();
-- 
2.43.0


From f798e0f1f443540eaa554ee5bde5f97a99ad17a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:16 +0000
Subject: [PATCH 24/65] fix: a closed outgoing connection no longer connects
 again

---
 daemon/EagerConnection.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/daemon/EagerConnection.cpp b/daemon/EagerConnection.cpp
index d63ab17..5ba0afa 100644
--- a/daemon/EagerConnection.cpp
+++ b/daemon/EagerConnection.cpp
@@ -255,6 +255,11 @@ tcp::endpoint EagerConnection::endpoint() const
 void EagerConnection::startResolve()
 {
     LogSpam << "EagerConnection::startResolve()";
+    if (!opened_)
+    {
+        //  closed (which cancels the timer) while waiting to try again
+        return;
+    }
     time_t nowTime;
     istat::istattime(&nowTime);
     if (nowTime - tryLaterTime_ < backoff_ / 2)
@@ -305,6 +310,10 @@ void EagerConnection::on_resolve(boost::system::error_code const &err, tcp::reso
 void EagerConnection::tryLater()
 {
     LogSpam << "EagerConnection::tryLater()";
+    if (!opened_)
+    {
+        return;
+    }
     successfulWritesDuringBackoff_ = 1;
     if (resolveHost_.size() && resolvePort_.size())
     {
-- 
2.43.0


From cc01c7d4e177cb835233ca8825f0877de2e938cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:58 +0000
Subject: [PATCH 25/65] fix: a record far from the present no longer wraps into
 the forwarding window

---
 daemon/Bucketizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/Bucketizer.cpp b/daemon/Bucketizer.cpp
index ed8e6e2..c081711 100644
--- a/daemon/Bucketizer.cpp
+++ b/daemon/Bucketizer.cpp
@@ -28,7 +28,7 @@ void Bucketizer::update(istat::Bucket const &o) {
     time = time - (time % 10); // make a 10 second offset bucket
 
     // this will be 0 for furthest back in time
-    int offset = ((time - now) / 10) + (BUCKET_COUNT-2);
+    time_t offset = ((time - now) / 10) + (BUCKET_COUNT-2);
     // assume now is between 50 and 59, time is cast to "50", BUCKET_COUNT is 5
     // time
     // 20 --> 0 <--- now - 30
-- 
2.43.0


From 1542460b738325a7609f6599e617d922aef75409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:58 +0000
Subject: [PATCH 26/65] fix: forward sums and extremes with full precision

---
 daemon/StatServer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index a4af436..8fccc87 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -701,6 +701,11 @@ void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
         size_t forwardIndex = 0;
         //  if not opened, then we lose this bucket
         std::stringstream ss[count];
+        for (size_t i = 0; i != count; ++i)
+        {
+            //  enough digits to forward each value unchanged
+            ss[i].precision(17);
+        }
         for (std::tr1::unordered_map<std::string, Bucketizer>::iterator
             ptr(buckets.begin()), end (buckets.end());
             ptr != end;
-- 
2.43.0


From c880db853f6f89c22a451c50e3a697d25dbbc359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:12 +0000
Subject: [PATCH 27/65] fix: HTTP header scan ran past the end of a request of
 just a blank line

---
 daemon/HttpServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/HttpServer.cpp b/daemon/HttpServer.cpp
index 5009933..6c304a5 100644
--- a/daemon/HttpServer.cpp
+++ b/daemon/HttpServer.cpp
@@ -181,7 +181,7 @@ void HttpRequest::on_header(boost::system::error_code const &err, size_t xfer)
     //  parse header
     bool first = true;
     size_t b = 0;
-    for (size_t p = 3, n = headerData_.size(); p != n-2; ++p)
+    for (size_t p = 3, n = headerData_.size(); p + 2 < n; ++p)
     {
         if (headerData_[p] == '\n' && headerData_[p-1] == '\r' && headerData_[p+1] != ' ')
         {
-- 
2.43.0


From a276387de17ba12fcbfed796a17aaba3aff04406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:12 +0000
Subject: [PATCH 28/65] fix: answer HTTP requests whose handling throws
 anything but runtime_error

---
 daemon/RequestInFlight.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index 645e71d..3a2b97b 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -146,7 +146,7 @@ void RequestInFlight::go()
             do_UNKNOWN(req_->method());
         }
     }
-    catch (std::runtime_error const &re) {
+    catch (std::exception const &re) {
         LogError << std::string("HTTP exception: ") + re.what();
         reportError(std::string("HTTP exception: ") + re.what());
     }
@@ -263,7 +263,7 @@ void RequestInFlight::goProm()
             do_UNKNOWN(req_->method());
         }
     }
-    catch (std::runtime_error const &re) {
+    catch (std::exception const &re) {
         LogError << std::string("HTTP exception: ") + re.what();
         reportError(std::string("HTTP exception: ") + re.what());
     }
-- 
2.43.0


From bd7b48579366ae4e64c4f2ba5bdda96bfabd96c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:12 +0000
Subject: [PATCH 29/65] fix: HTTP Content-Length could make the server allocate
 any amount of memory

---
 daemon/HttpServer.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/daemon/HttpServer.cpp b/daemon/HttpServer.cpp
index 6c304a5..b5cc8db 100644
--- a/daemon/HttpServer.cpp
+++ b/daemon/HttpServer.cpp
@@ -20,6 +20,9 @@ using namespace boost::asio;
 
 DebugOption debugHttp("http");
 
+//  don't let a client make us allocate any amount of memory
+#define MAX_BODY_SIZE (64 * 1024 * 1024)
+
 HttpServer::HttpServer(int port, boost::asio::io_service &svc, std::string listen_addr, int listenOverflowBacklog) :
     port_(port),
     listenOverflowBacklog_(listenOverflowBacklog),
@@ -114,7 +117,15 @@ void HttpRequest::readBody()
     {
         throw std::runtime_error("Can't read body without content-length");
     }
+    if (cl->empty() || cl->find_first_not_of("0123456789") != std::string::npos)
+    {
+        throw std::runtime_error("Bad content-length: " + *cl);
+    }
     size_t len = boost::lexical_cast<size_t>(*cl);
+    if (len > MAX_BODY_SIZE)
+    {
+        throw std::runtime_error("Request body is too large: " + *cl);
+    }
     bodyData_.resize(len);
     bodyRead_ = 0;
     if (headerSize_ < headerData_.size() && len > 0)
-- 
2.43.0


From e9790056f52b96ae75c8ae6006abe8a767baa76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:01 +0000
Subject: [PATCH 30/65] fix: JSON request bodies were parsed past their end

The JSON reader looks at the character after the document, so it needs
terminated text; the body buffer is not, and may be empty.
---
 daemon/RequestInFlight.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index 3a2b97b..12ffd43 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -443,7 +443,7 @@ void RequestInFlight::on_multigetBody()
     boost::shared_ptr<IStatStore> statStore(ss_->store());
     Json::Reader reader;
     Json::Value root;
-    if (!reader.parse(&*req_->bodyBegin(), &*req_->bodyEnd(), root, false))
+    if (!reader.parse(std::string(req_->bodyBegin(), req_->bodyEnd()), root, false))
     {
         reportError(reader.getFormattedErrorMessages(), 400);
         return;
@@ -1042,7 +1042,7 @@ public:
 
     void go(std::string const &settings)
     {
-        if (!reader_.parse(&*rif_->req_->bodyBegin(), &*rif_->req_->bodyEnd(), root_, false))
+        if (!reader_.parse(std::string(rif_->req_->bodyBegin(), rif_->req_->bodyEnd()), root_, false))
         {
             formatError(reader_.getFormattedErrorMessages());
             return;
-- 
2.43.0


From 361278b9fd9a43f5e6688106de48379f4e0fef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:01 +0000
Subject: [PATCH 31/65] fix: a multi-get body that is not a JSON object aborted
 the server

---
 daemon/RequestInFlight.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index 12ffd43..4b3a8ec 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -448,6 +448,11 @@ void RequestInFlight::on_multigetBody()
         reportError(reader.getFormattedErrorMessages(), 400);
         return;
     }
+    if (!root.isObject())
+    {
+        reportError("JSON request must be an object", 400);
+        return;
+    }
     try
     {
         time_t start = root["start"].asInt64();
-- 
2.43.0


From d6649219bff8c829cafc01ce1213cf1d7498ead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:01 +0000
Subject: [PATCH 32/65] fix: deeply nested JSON request bodies overflowed the
 stack

---
 lib/jsoncpp.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/jsoncpp.cpp b/lib/jsoncpp.cpp
index b016b92..1bc0946 100644
--- a/lib/jsoncpp.cpp
+++ b/lib/jsoncpp.cpp
@@ -352,6 +352,8 @@ Reader::parse( const char *beginDoc, const char *endDoc,
 }
 
 
+static const size_t maxDepth = 1000;
+
 bool
 Reader::readValue()
 {
@@ -359,6 +361,10 @@ Reader::readValue()
    skipCommentTokens( token );
    bool successful = true;
 
+   // readValue() recurses: do not let a document use up the stack
+   if ( nodes_.size() > maxDepth )
+      return addError( "Syntax error: value nested too deeply.", token );
+
    if ( collectComments_  &&  !commentsBefore_.empty() )
    {
       currentValue().setComment( commentsBefore_, commentBefore );
-- 
2.43.0


From f02ec167f322f1550822d9a14976f454cfb41962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:01 +0000
Subject: [PATCH 33/65] fix: negative maxSamples in a multi-get request was not
 rejected

---
 daemon/RequestInFlight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index 4b3a8ec..3f5b9f9 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -457,7 +457,7 @@ void RequestInFlight::on_multigetBody()
     {
         time_t start = root["start"].asInt64();
         time_t stop = root["stop"].asInt64();
-        size_t maxSamples = root["maxSamples"].asInt();
+        int maxSamples = root["maxSamples"].asInt();
         if (start < 0) {
             reportError("Invalid 'start' parameter", 400);
             return;
-- 
2.43.0


From fce3075a3066421da347eb626e6c44868c700040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:01 +0000
Subject: [PATCH 34/65] fix: /favicon.ico was never found

---
 daemon/RequestInFlight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index 3f5b9f9..d82ec97 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -178,7 +178,7 @@ void RequestInFlight::do_GET(std::string const &url, std::map<std::string, std::
         serveFile(url.substr(7));
     }
     else if ((params.size() == 0) && (url == "favicon.ico" || url == "/favicon.ico")) {
-        serveFile("/files/favicon.ico");
+        serveFile("favicon.ico");
     }
     else if ((param_val = params.find("f")) != params.end()) {
         serveFile(url.substr(4));
-- 
2.43.0


From ea121e8caaba8b148d7249df5b82a958e11d0bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:01 +0000
Subject: [PATCH 35/65] fix: early HTTP error replies lost their body

reportError() writes to a stream that has no sink before prepareEncoding().
---
 daemon/RequestInFlight.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index d82ec97..4287f9a 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -104,6 +104,8 @@ void RequestInFlight::go()
 {
     LogSpam << "RequestInFlight:go()";
     try {
+        prepareEncoding();
+
         std::string const &url(req_->url());
         boost::shared_ptr<IStatStore> storePtr(ss_->store());
         if (!storePtr) {
@@ -121,8 +123,6 @@ void RequestInFlight::go()
             return;
         }
 
-        prepareEncoding();
-
         left = left.substr(1, std::string::npos);
         LogSpam << "left: " << left;
 
@@ -245,6 +245,8 @@ void RequestInFlight::goProm()
 {
     LogSpam << "RequestInFlight:goProm()";
     try {
+        prepareEncoding();
+
         std::string const &url(req_->url());
         if (! ss_->promExporter()->enabled()) {
             LogWarning << "PromExporter not enabled";
@@ -252,8 +254,6 @@ void RequestInFlight::goProm()
             return;
         }
 
-        prepareEncoding();
-
         if (req_->method() == "GET")
         {
             do_GET(url);
-- 
2.43.0


From 215586eff170d3d783b4893d6e7dc9c9a6458271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:01 +0000
Subject: [PATCH 36/65] fix: default start of a counter query could be negative

---
 daemon/RequestInFlight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index 4287f9a..69f70e6 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -790,7 +790,7 @@ void RequestInFlight::generateCounterData(
     }
     else {
         if (endTime && !startTime) {
-            startTime = endTime - 900;
+            startTime = endTime > 900 ? endTime - 900 : 0;
         }
 
 #pragma GCC diagnostic push
-- 
2.43.0


From bf523e2469d7eaa2d512f6ed9f8ded294db1ab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:01 +0000
Subject: [PATCH 37/65] fix: multi-get replies broken by a bad or repeated key

A key that is no string made an error object follow an opening brace, and
an unknown counter asked for twice was reported twice.
---
 daemon/RequestInFlight.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index 69f70e6..9541b20 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -11,6 +11,7 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <unistd.h>
+#include <set>
 
 #include <boost/lexical_cast.hpp>
 #include <boost/assign.hpp>
@@ -492,12 +493,19 @@ void RequestInFlight::on_multigetBody()
         }
         bool compact = root["compact"].asBool();
 
+        //  convert all the names before writing any output, because that may throw
+        std::set<std::string> names;
+        for (int i = 0, n = keys.size(); i != n; ++i)
+        {
+            names.insert(keys[i].asString());
+        }
+
         strm_buffer_ << "{";
         std::string delim("");
         boost::shared_ptr<MultiCounterWorker> mcw = boost::make_shared<MultiCounterWorker>(start, stop, maxSamples, trailing, compact, shared_from_this());
-        for (int i = 0, n = keys.size(); i != n; ++i)
+        for (std::set<std::string>::iterator iter(names.begin()), end(names.end()); iter != end; ++iter)
         {
-            std::string name(keys[i].asString());
+            std::string const &name(*iter);
             boost::shared_ptr<IStatCounter> counter;
 #if BOOST_VERSION >= 106700
             boost::asio::strand<boost::asio::io_service::executor_type> *strand = 0;
-- 
2.43.0


From 943ea658b4cb2b40a62a06b2890dbb8172428f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:01 +0000
Subject: [PATCH 38/65] fix: a counter asked for under two spellings appeared
 once in a multi-get reply

---
 daemon/RequestInFlight.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index 9541b20..9de10b7 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -311,9 +311,9 @@ public:
     bool trailing_;
     boost::shared_ptr<RequestInFlight> req_;
 #if BOOST_VERSION >= 106700
-    std::map<boost::shared_ptr<IStatCounter>, std::pair<boost::asio::strand<boost::asio::io_service::executor_type> *, std::string> > data;
+    std::multimap<boost::shared_ptr<IStatCounter>, std::pair<boost::asio::strand<boost::asio::io_service::executor_type> *, std::string> > data;
 #else
-    std::map<boost::shared_ptr<IStatCounter>, std::pair<boost::asio::strand *, std::string> > data;
+    std::multimap<boost::shared_ptr<IStatCounter>, std::pair<boost::asio::strand *, std::string> > data;
 #endif
     int64_t num;
     lock strmLock;
@@ -324,11 +324,11 @@ public:
 #if BOOST_VERSION >= 106700
     void add(boost::shared_ptr<IStatCounter> const &ctr, boost::asio::strand<boost::asio::io_service::executor_type> *strand, std::string const &name)
     {
-        data[ctr] = std::pair<boost::asio::strand<boost::asio::io_service::executor_type> *, std::string>(strand, name);
+        data.insert(std::make_pair(ctr, std::pair<boost::asio::strand<boost::asio::io_service::executor_type> *, std::string>(strand, name)));
 #else
     void add(boost::shared_ptr<IStatCounter> const &ctr, boost::asio::strand *strand, std::string const &name)
     {
-        data[ctr] = std::pair<boost::asio::strand *, std::string>(strand, name);
+        data.insert(std::make_pair(ctr, std::pair<boost::asio::strand *, std::string>(strand, name)));
 #endif
     }
 
@@ -344,12 +344,12 @@ public:
         {
             num = data.size();
 #if BOOST_VERSION >= 106700
-            for (std::map<boost::shared_ptr<IStatCounter>, std::pair<boost::asio::strand<boost::asio::io_service::executor_type> *, std::string> >::iterator
+            for (std::multimap<boost::shared_ptr<IStatCounter>, std::pair<boost::asio::strand<boost::asio::io_service::executor_type> *, std::string> >::iterator
                 ptr(data.begin()), end(data.end()); ptr != end; ++ptr)
             {
                 boost::asio::post((*ptr).second.first->get_inner_executor().context(), boost::asio::bind_executor(*((*ptr).second.first),
 #else
-            for (std::map<boost::shared_ptr<IStatCounter>, std::pair<boost::asio::strand *, std::string> >::iterator
+            for (std::multimap<boost::shared_ptr<IStatCounter>, std::pair<boost::asio::strand *, std::string> >::iterator
                 ptr(data.begin()), end(data.end()); ptr != end; ++ptr)
             {
                 (*ptr).second.first->get_io_service().post((*ptr).second.first->wrap(
-- 
2.43.0


From c85597965d99ba148c072698d3712ad1c223a9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:01 +0000
Subject: [PATCH 39/65] fix: text was not, or not correctly, quoted in JSON
 replies

js_quote() writes \' and raw control characters, which JSON does not allow.
---
 daemon/RequestInFlight.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index 9de10b7..2f5e7b7 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -381,7 +381,7 @@ public:
             {
                 delim = ",";
             }
-            req_->strm_buffer_ << "\"" << name << "\":{"
+            req_->strm_buffer_ << Json::valueToQuotedString(name.c_str()) << ":{"
                         << "\"start\":" << normalized_start
                         << ",\"end\":" << normalized_end
                         << ",\"interval\":" << interval
@@ -521,7 +521,7 @@ void RequestInFlight::on_multigetBody()
                 {
                     delim = ",";
                 }
-                strm_buffer_ << "\"" << name << "\":\"Not found.\"";
+                strm_buffer_ << Json::valueToQuotedString(name.c_str()) << ":\"Not found.\"";
             }
             else
             {
@@ -679,7 +679,7 @@ void RequestInFlight::createCountersMatchingResponse(std::string const &pattern,
         strm_buffer_ << "\"" << (*it).first << "\":\"" << js_quote((*it).second) << "\"";
     }
     strm_buffer_ << "}";
-    strm_buffer_ << ",\"pattern\":\"" << js_quote(pattern) << "\",\"matching_names\":[";
+    strm_buffer_ << ",\"pattern\":" << Json::valueToQuotedString(pattern.c_str()) << ",\"matching_names\":[";
     comma = false;
     for (std::list<std::pair<std::string, CounterResponse> >::iterator
         ptr(results.begin()), end(results.end());
@@ -697,7 +697,7 @@ void RequestInFlight::createCountersMatchingResponse(std::string const &pattern,
         strm_buffer_ << 
             "{\"is_leaf\":" << ((*ptr).second.isLeaf ? "true" : "false") <<
             ",\"type\":" << ((*ptr).second.counterType ) <<
-            ",\"name\":\"" << js_quote((*ptr).first) << "\"}";
+            ",\"name\":" << Json::valueToQuotedString((*ptr).first.c_str()) << "}";
     }
     strm_buffer_ << "]}";
 }
@@ -731,7 +731,7 @@ void RequestInFlight::listAgentsMatching(std::string const &pattern)
             iptr != iend;
             ++iptr)
         {
-            strm_buffer_ << "\"" << js_quote((*iptr).first) << "\":\"" << js_quote((*iptr).second) << "\",";
+            strm_buffer_ << Json::valueToQuotedString((*iptr).first.c_str()) << ":" << Json::valueToQuotedString((*iptr).second.c_str()) << ",";
         }
         strm_buffer_ << "\"_online\":" << ((*ptr).online_ ? "true" : "false") << ",";
         strm_buffer_ << "\"_connected\":\"" << iso_8601_datetime((*ptr).connected_) << "\",";
-- 
2.43.0


From b630b6f11646b05091a04bd846bb3e06da02e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:12 +0000
Subject: [PATCH 40/65] fix: figures beyond the range of a float gave a
 standard deviation of NaN

NaN is not valid in the JSON replies that report it.
---
 lib/Bucket.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Bucket.cpp b/lib/Bucket.cpp
index d328ec7..fb871f0 100644
--- a/lib/Bucket.cpp
+++ b/lib/Bucket.cpp
@@ -9,9 +9,12 @@
 #include <limits>
 
 //  Clamp to the (finite) range of a float. The stored precision is kept.
+//  NaN, from adding opposite infinities, reads as 0.
 template<typename T>
 static inline T stabilizeFloat(T f) {
-    return f < -std::numeric_limits<float>::max()
+    return f != f
+      ? 0
+      : f < -std::numeric_limits<float>::max()
       ? -std::numeric_limits<float>::max()
       : f > std::numeric_limits<float>::max()
       ? std::numeric_limits<float>::max()
@@ -141,7 +144,7 @@ namespace istat
             return 0;
         }
         //  because of cancellation, this may be slightly negative
-        double diff = double(count_) * double(sumSq_) - sum_ * sum_;
+        double diff = double(count_) * double(sumSq()) - sum() * sum();
         if (diff < 0)
         {
             diff = 0;
-- 
2.43.0


From bb080539a56aa40f0f6409f6bbfa2260e9e529f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:07 +0000
Subject: [PATCH 41/65] fix: pruning removed the store's own directory when it
 was empty, and then threw out of the timer and the deletion

---
 daemon/StatStore.cpp | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index f1bd066..02b8cbf 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -324,7 +324,13 @@ void StatStore::pruneEmptyDirs(const std::string& purgePath)
 {
     LogSpam << "StatStore::pruneEmptyDirs(" << purgePath << ")";
     grab aholdof(pruneEmptyDirsMutex_);
-    boost::filesystem::directory_iterator it(purgePath);
+    boost::system::error_code ec;
+    boost::filesystem::directory_iterator it(purgePath, ec);
+    if (ec)
+    {
+        LogWarning << "Can't look for empty directories in " << purgePath << " because " << ec.message();
+        return;
+    }
     boost::filesystem::directory_iterator end = boost::filesystem::directory_iterator();
 
     while(it != end)
@@ -337,26 +343,24 @@ void StatStore::pruneEmptyDirs(const std::string& purgePath)
             ++it;
 
             pruneEmptyDirs(del.string());
+            try
+            {
+                if (boost::filesystem::is_directory(del) && boost::filesystem::is_empty(del))
+                {
+                    LogNotice << "Pruning an empty directory: " << del;
+                    boost::filesystem::remove(del);
+                }
+            }
+            catch (const boost::filesystem::filesystem_error & ex)
+            {
+                LogWarning << "Couldnt delete empty directory " << del << " because " << ex.what();
+            }
         }
         else
         {
             ++it;
         }
     }
-    if (boost::filesystem::is_directory(purgePath) && boost::filesystem::is_empty(purgePath))
-    {
-        const boost::filesystem::path del = purgePath;
-
-        try
-        {
-            LogNotice << "Pruning an empty directory: " << del;
-            boost::filesystem::remove(del);
-        }
-        catch (const boost::filesystem::filesystem_error & ex)
-        {
-            LogWarning << "Couldnt delete empty directory " << del << " because " << ex.what();
-        }
-    }
 }
 
 void StatStore::availCheckNext()
-- 
2.43.0


From 0f1d62f53ca7b3cf1c5f4daf0cd08af674f592ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:15 +0000
Subject: [PATCH 42/65] fix: after a few refused refreshes the key list was
 never refreshed again, and deleted counters swallowed samples

---
 daemon/StatStore.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index 02b8cbf..7a72cdc 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -639,6 +639,7 @@ void StatStore::scheduleRefresh()
     }
     else
     {
+        __sync_fetch_and_sub(&queuedRefreshes_, 1);
         LogNotice << "StatStore::scheduleRefresh() - Did not schedule a refresh. There are already " << queuedRefreshes_ << "/" << MAX_QUEUED_KEY_REFRESHES << " scheduled.";
     }
 }
-- 
2.43.0


From d7f6ea7f3410f868fd75dae2164ed2eee0cd0a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:15 +0000
Subject: [PATCH 43/65] fix: names with empty components opened a second
 counter on another counter's files

---
 daemon/StatStore.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index 7a72cdc..9271dd9 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -30,6 +30,15 @@ using namespace istat;
 
 long const DEFAULT_MIN_REQUIRED_SPACE = 100 * 1024 * 1024;
 
+//  A name with an empty component ("a..b", "a.", ".a") would share its directory
+//  with the counter that goes without the extra dots.
+static bool has_empty_component(std::string const &name)
+{
+    size_t start = (name.size() && name[0] == '*') ? 1 : 0;
+    return name.size() == start || name[start] == '.' || name[name.size() - 1] == '.' ||
+        name.find("..", start) != std::string::npos;
+}
+
 StatStore::StatStore(std::string const &path, int uid,
     boost::asio::io_service &svc,
     boost::shared_ptr<IStatCounterFactory> factory,
@@ -129,6 +138,11 @@ void StatStore::record(std::string const &ctr, time_t time, double value, double
     std::string cname(ctr);
 
     LogSpam << "StatStore::record()";
+    if (has_empty_component(cname))
+    {
+        LogNotice << "StatStore::record() -- not a counter name:" << cname;
+        return;
+    }
     //  I will only aggregate up to N levels -- more than that, and contention becomes too bad
     int maxAgg = 1 + aggregateCount_;
     while (maxAgg > 0)
@@ -172,7 +186,7 @@ void StatStore::find(std::string const &ctr, boost::shared_ptr<IStatCounter> &st
 //  this takes the name un-munged
 boost::shared_ptr<StatStore::AsyncCounter> StatStore::openCounter(std::string const &name, bool create, bool onlyExisting, time_t zeroTime)
 {
-    if (name == "")
+    if (has_empty_component(name))
     {
         return boost::shared_ptr<StatStore::AsyncCounter>((StatStore::AsyncCounter *)0);
     }
-- 
2.43.0


From 02aa0fd3a446f7f6e3961a20a165b77eb5dcd33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:08 +0000
Subject: [PATCH 44/65] fix: a second leading '*' became part of the counter's
 name, which then named another counter

---
 daemon/StatStore.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index 9271dd9..76673ca 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -34,8 +34,8 @@ long const DEFAULT_MIN_REQUIRED_SPACE = 100 * 1024 * 1024;
 //  with the counter that goes without the extra dots.
 static bool has_empty_component(std::string const &name)
 {
-    size_t start = (name.size() && name[0] == '*') ? 1 : 0;
-    return name.size() == start || name[start] == '.' || name[name.size() - 1] == '.' ||
+    size_t start = name.find_first_not_of('*');
+    return start == std::string::npos || name[start] == '.' || name[name.size() - 1] == '.' ||
         name.find("..", start) != std::string::npos;
 }
 
@@ -195,11 +195,9 @@ boost::shared_ptr<StatStore::AsyncCounter> StatStore::openCounter(std::string co
     bool isCollated = false;
     if (name[0] == '*')
     {
-        xform = name.substr(1);
-        if (!xform.length())
-        {
-            return boost::shared_ptr<StatStore::AsyncCounter>((StatStore::AsyncCounter *)0);
-        }
+        //  never part of the counter's own name: "*a" as a name could neither be
+        //  found again after a restart, nor deleted without deleting "a" instead
+        xform = name.substr(name.find_first_not_of('*'));
         isCollated = true;
     }
     munge(xform);
-- 
2.43.0


From 9b3e2db9d97fc555c03fbe4080d01b87ec0d7237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:24 +0000
Subject: [PATCH 45/65] fix: a counter could be created again before its
 deletion was carried out, and then lost its new files

---
 daemon/StatStore.cpp | 12 ++++++++++--
 daemon/StatStore.h   |  3 ++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index 76673ca..b655265 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -527,6 +527,11 @@ public:
         toDelete.pop_front();
         //counter purging needs to know the stores root path to properly relocate counters for backup
         work.counter->purge(rootPath_);
+        if (!(work.counter == theDeletedCounter))
+        {
+            //  only now can the name be opened again
+            work.aCount->purged_ = true;
+        }
         go();
     }
 
@@ -619,9 +624,12 @@ void StatStore::refreshAllKeys()
         {
             key = (*it).first;
             value = (*it).second;
-            if(!(value->statCounter_ == theDeletedCounter))
+            if(!value->purged_)
             {
-                keysWA_.add(key, value->statCounter_->isCollated());
+                if(!(value->statCounter_ == theDeletedCounter))
+                {
+                    keysWA_.add(key, value->statCounter_->isCollated());
+                }
                 ++it;
             }
             else
diff --git a/daemon/StatStore.h b/daemon/StatStore.h
index 64aa396..a9749ac 100644
--- a/daemon/StatStore.h
+++ b/daemon/StatStore.h
@@ -71,7 +71,7 @@ public:
     {
         AsyncCounter(boost::asio::io_service &svc,
                      boost::shared_ptr<IStatCounter> statCounter)
-            : statCounter_(statCounter),
+            : statCounter_(statCounter), purged_(false),
 #if BOOST_VERSION >= 106700
             strand_(svc.get_executor()) {
 #else
@@ -79,6 +79,7 @@ public:
 #endif
         }
         boost::shared_ptr<IStatCounter> statCounter_;
+        volatile bool purged_;  //  its files are gone
 #if BOOST_VERSION >= 106700
         boost::asio::strand<boost::asio::io_service::executor_type> strand_;
 #else
-- 
2.43.0


From 97e5a19413933a084c08557196d0c5e117d67fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:44 +0000
Subject: [PATCH 46/65] fix: adding, exchanging and matching keys raced: a lost
 key, an endless spin, a use after free

---
 daemon/AllKeys.cpp | 40 +++++++++++++---------------------------
 daemon/AllKeys.h   | 11 ++++-------
 2 files changed, 17 insertions(+), 34 deletions(-)

diff --git a/daemon/AllKeys.cpp b/daemon/AllKeys.cpp
index a015a6b..82d5ed4 100644
--- a/daemon/AllKeys.cpp
+++ b/daemon/AllKeys.cpp
@@ -4,8 +4,8 @@
 #include "Debug.h"
 #include "Logs.h"
 
-#include <istat/Atomic.h>
 #include <boost/assign/list_of.hpp>
+#include <algorithm>
 
 
 using boost::assign::map_list_of;
@@ -15,7 +15,8 @@ DebugOption allKeys("allKeys");
 
 CounterResponse::CounterDisplayTypeToStringMap CounterResponse::DisplayTypeToString = map_list_of(DisplayTypeGauge, "gauge")(DisplayTypeEvent, "counter")(DisplayTypeAggregate, "aggregate");
 AllKeys::AllKeys() :
-    head_(0)
+    head_(0),
+    dirty_(false)
 {
 }
 
@@ -33,41 +34,26 @@ AllKeys::~AllKeys()
 
 void AllKeys::exchange(AllKeys &ak)
 {
-    Rec* old_head = head_;
+    grab aholdof(lock_);
+    grab akaholdof(ak.lock_);
+    std::swap(head_, ak.head_);
     dirty_ = true;
-    while (true)
-    {
-        if(istat::atomic_compare_exchange((void * volatile *)&head_, (void *)old_head, (void *)ak.head_))
-        {
-            break;
-        }
-
-    }
-    ak.head_ = old_head;
     toMatch_.clear();
-
+    ak.dirty_ = true;
+    ak.toMatch_.clear();
 }
 
 void AllKeys::add(std::string const &str, bool isCollated)
 {
-    dirty_ = true;
     if (allKeys.enabled())
     {
         LogSpam << "AllKeys::add(" << str << ")";
     }
     Rec *r = new Rec(str, isCollated);
-    //  Spin, in case we race with some other winner.
-    //  Note that it will never livelock, because someone
-    //  will write to the head_ each cycle and thus make
-    //  progress.
-    while (true)
-    {
-        r->next = head_;
-        if (istat::atomic_compare_exchange((void * volatile *)&head_, (void *)r->next, (void *)r))
-        {
-            return;
-        }
-    }
+    grab aholdof(lock_);
+    r->next = head_;
+    head_ = r;
+    dirty_ = true;
 }
 
 void AllKeys::delete_all()
@@ -78,7 +64,7 @@ void AllKeys::delete_all()
 
 void AllKeys::match(std::string const &path, std::list<std::pair<std::string, CounterResponse> > &oList)
 {
-    //  Only one match() can run at once. That should not be a real problem.
+    //  Only one match() can run at once, and no change while it runs. That should not be a real problem.
     grab aholdof(lock_);
     if (dirty_)
     {
diff --git a/daemon/AllKeys.h b/daemon/AllKeys.h
index 30e1de8..e6f43ba 100644
--- a/daemon/AllKeys.h
+++ b/daemon/AllKeys.h
@@ -2,8 +2,7 @@
 #if !defined(daemon_AllKeys_h)
 #define daemon_AllKeys_h
 
-//  We never remove keys once added!
-//  This allows us to do lockless linked lists.
+//  Keys are only ever added, or all exchanged at once.
 
 #include "threadfunc.h"
 #include <boost/noncopyable.hpp>
@@ -61,6 +60,8 @@ public:
     void delete_all();
     void exchange(AllKeys &ak);
 
+    void match(std::string const &path, std::list<std::pair<std::string, CounterResponse> > &oList);
+private:
     //  T is callable(std::string const &str)
     template<typename T> void foreach(T &t) const
     {
@@ -71,11 +72,7 @@ public:
             r = r->next;
         }
     }
-    void match(std::string const &path, std::list<std::pair<std::string, CounterResponse> > &oList);
-private:
-    //  Once created, one of these records never go away, unless 
-    //  ALL records go away. This makes iteration thread safe (at 
-    //  the risk of missing any new record created while iterating).
+    //  Only touched while holding lock_.
     struct Rec
     {
         inline Rec(std::string const &init, bool isCollated) : next(0), data(init, isCollated) {}
-- 
2.43.0


From 5e05d052d8d7c02d4a844cd614014df5b6c9a7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:44 +0000
Subject: [PATCH 47/65] fix: a counter created while the keys were being
 refreshed was missing from the listing

---
 daemon/StatStore.cpp | 9 +++++++++
 daemon/StatStore.h   | 1 +
 2 files changed, 10 insertions(+)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index b655265..f181a87 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -66,6 +66,7 @@ StatStore::StatStore(std::string const &path, int uid,
     aggregateCount_(0),
     pruneEmptyDirsMs_(pruneEmptyDirsMs),
     recursivelyCreateCounters_(recursivelyCreateCounters),
+    refreshing_(false),
     queuedRefreshes_(0)
 {
     if(minimumRequiredSpace_ == -1)
@@ -250,6 +251,12 @@ boost::shared_ptr<StatStore::AsyncCounter> StatStore::openCounter(std::string co
             return asyncCounter;
         }
         counters[xform] = asyncCounter;
+        if (refreshing_)
+        {
+            //  this shard may have been visited already; first add to the list
+            //  that will be exchanged in, lest the key be missed by both.
+            keysWA_.add(xform, asyncCounter->statCounter_->isCollated());
+        }
         keys_.add(xform, asyncCounter->statCounter_->isCollated());
     }
 
@@ -610,6 +617,7 @@ void StatStore::refreshAllKeys()
     boost::shared_ptr<AsyncCounter> value;
 
     LogSpam << "StatStore::refreshAllKeys()";
+    refreshing_ = true;
     for (int i = 0; i < counterShards_.dimension(); ++i)
     {
         std::pair<CounterMap&, ::lock&> mapAndLock = counterShards_.get_from_index(i);
@@ -640,6 +648,7 @@ void StatStore::refreshAllKeys()
         }
     }
     keys_.exchange(keysWA_);
+    refreshing_ = false;
     keysWA_.delete_all();
     __sync_fetch_and_sub(&queuedRefreshes_, 1);
 }
diff --git a/daemon/StatStore.h b/daemon/StatStore.h
index a9749ac..ade2721 100644
--- a/daemon/StatStore.h
+++ b/daemon/StatStore.h
@@ -121,6 +121,7 @@ private:
     int aggregateCount_;
     int pruneEmptyDirsMs_;
     bool recursivelyCreateCounters_;
+    volatile bool refreshing_;
     volatile int queuedRefreshes_;
 
     //  openCounter() takes an un-munged name!
-- 
2.43.0


From 70c467be2103be6b1c7e632691bc95c9f4855f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:15 +0000
Subject: [PATCH 48/65] fix: two counters in the shards of each other's
 prefixes could deadlock while being created

---
 daemon/StatStore.cpp | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index f181a87..9647aeb 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -203,6 +203,24 @@ boost::shared_ptr<StatStore::AsyncCounter> StatStore::openCounter(std::string co
     }
     munge(xform);
     boost::shared_ptr<StatStore::AsyncCounter> asyncCounter;
+    std::string conflict;
+    if (create && !recursivelyCreateCounters_) {
+        // Check if name conflicts with an existing counter. Never hold two shard locks
+        // at once: two names can be in each other's prefix's shard.
+        asyncCounter = openCounter(name, false);
+        if (!!asyncCounter) {
+            return asyncCounter;
+        }
+        std::string xform_prefix(xform);
+        while(stripext(xform_prefix)) {
+            grab aholdof(counterShards_.lock(xform_prefix));
+            CounterMap &cnts(counterShards_.map(xform_prefix));
+            if (cnts.find(xform_prefix) != cnts.end()) {
+                conflict = xform_prefix;
+                break;
+            }
+        }
+    }
     {
         grab aholdof(counterShards_.lock(xform));
         CounterMap &counters(counterShards_.map(xform));
@@ -218,23 +236,9 @@ boost::shared_ptr<StatStore::AsyncCounter> StatStore::openCounter(std::string co
             LogSpam << "StatStore::openCounter(" << name << ") ... skipping creation";
             return boost::shared_ptr<StatStore::AsyncCounter>((StatStore::AsyncCounter *)0);
         }
-        if (!recursivelyCreateCounters_) {
-            // Check if name conflicts with an existing counter
-            std::string xform_prefix(xform);
-            while(stripext(xform_prefix)) {
-                if (xform_prefix != xform) {
-                    grab aholdof(counterShards_.lock(xform_prefix));
-                    CounterMap &cnts(counterShards_.map(xform_prefix));
-                    if (cnts.find(xform_prefix) != cnts.end()) {
-                        LogSpam << "StatStore::openCounter(" << name << ") ... conflicting with " << xform_prefix;
-                        return boost::shared_ptr<StatStore::AsyncCounter>((StatStore::AsyncCounter *)0);
-                    }
-                }
-                // This should never happend, but in case of an infinite loop
-                else {
-                    break;
-                }
-            }
+        if (conflict.size()) {
+            LogSpam << "StatStore::openCounter(" << name << ") ... conflicting with " << conflict;
+            return boost::shared_ptr<StatStore::AsyncCounter>((StatStore::AsyncCounter *)0);
         }
         //  I hold the lock while creating the file, which is sub-optimal
         //  but avoids racing.
-- 
2.43.0


From abe4b9b7278ce8d45bde51a334c2d72a24c16ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:06 +0000
Subject: [PATCH 49/65] fix: deleting an event counter with pending events used
 its files after they were freed

---
 daemon/StatCounter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 967d8b4..120f6f5 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -441,7 +441,7 @@ void StatCounter::purge(std::string rootPath)
             }
         }
     }
-    counters_.clear();
+    //  counters_ stays as it is: what is still pending goes to the backup
 
     std::pair<bool, std::string> op_status = wrap_remove(parentPath);
 
-- 
2.43.0


From 462aac3a437b1709fc4ce01a3d9e482a53f2bc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:39 +0000
Subject: [PATCH 50/65] fix: the backup of a deleted counter went astray when
 the store's path occurs in the counter's name too

---
 daemon/StatCounter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 120f6f5..4db7f5c 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -397,7 +397,7 @@ void StatCounter::purge(std::string rootPath)
 
     boost::filesystem::path parentPath = boost::filesystem::path(counters_[0].file->getPath()).parent_path();
     std::string backupTargetPath = parentPath.string();
-    boost::algorithm::replace_all(backupTargetPath, rootPath, backupDir);
+    boost::algorithm::replace_first(backupTargetPath, rootPath, backupDir);
 
     if(!boost::filesystem::create_directories(backupTargetPath) && !boost::filesystem::exists(backupTargetPath))
     {
@@ -418,7 +418,7 @@ void StatCounter::purge(std::string rootPath)
         ++countersFlushed_;
 
         std::string counterBackupPath = ptr->file->getPath();
-        boost::algorithm::replace_all(counterBackupPath, rootPath, backupDir);
+        boost::algorithm::replace_first(counterBackupPath, rootPath, backupDir);
 
 
         boost::system::error_code ec;
-- 
2.43.0


From 93e3a0158fefd1e1a68ad28ea887693433add9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:39 +0000
Subject: [PATCH 51/65] fix: a counter that could not be deleted kept the rest
 of its batch from being deleted

---
 daemon/StatStore.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index 9647aeb..77abff3 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -537,7 +537,14 @@ public:
         Deleter::Work work(toDelete.front());
         toDelete.pop_front();
         //counter purging needs to know the stores root path to properly relocate counters for backup
-        work.counter->purge(rootPath_);
+        try
+        {
+            work.counter->purge(rootPath_);
+        }
+        catch (std::exception const &x)
+        {
+            LogError << "Could not delete counter" << work.ctr << ":" << x.what();
+        }
         if (!(work.counter == theDeletedCounter))
         {
             //  only now can the name be opened again
-- 
2.43.0


From ca5bb15289746b00423a36409d218e9460e99875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:38 +0000
Subject: [PATCH 52/65] fix: settings are not dirty until something is set

---
 daemon/Settings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daemon/Settings.cpp b/daemon/Settings.cpp
index 7765c18..fa271ea 100644
--- a/daemon/Settings.cpp
+++ b/daemon/Settings.cpp
@@ -309,7 +309,8 @@ RealSettings::RealSettings(RealSettingsFactory *rsf, std::string const &name) :
     fac_(rsf),
     name_(name),
     saveTimer_(rsf->svc_),
-    saveQueued_(false)
+    saveQueued_(false),
+    dirty_(false)
 {
     LogSpam << "RealSettings::RealSettings(" << name << ")";
 }
-- 
2.43.0


From 8f12d49c6dd1fc6243b2a096e578e07340bb04f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:27 +0000
Subject: [PATCH 53/65] fix: settings keys with vertical tabs or form feeds
 were saved but not read back

---
 daemon/Settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/Settings.cpp b/daemon/Settings.cpp
index fa271ea..2c155f6 100644
--- a/daemon/Settings.cpp
+++ b/daemon/Settings.cpp
@@ -620,6 +620,6 @@ void FakeSettings::set(std::string const &key, std::string const &value)
 bool is_valid_key(std::string const &key)
 {
     //  just ignore some particular set of characters -- they may come in handy later!
-    return key.find_first_of(" \r\n\t\b\\/:;*?\"'%()[]{}~$^#=+-") == std::string::npos;
+    return key.find_first_of(" \r\n\t\v\f\b\\/:;*?\"'%()[]{}~$^#=+-") == std::string::npos;
 }
 
-- 
2.43.0


From 1e1237f8c4f22b01859e0326615c00170a5dee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:27 +0000
Subject: [PATCH 54/65] fix: settings lost leading and trailing white space of
 their values when saved and loaded

---
 daemon/Settings.cpp | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/daemon/Settings.cpp b/daemon/Settings.cpp
index 2c155f6..fe68875 100644
--- a/daemon/Settings.cpp
+++ b/daemon/Settings.cpp
@@ -30,6 +30,44 @@ DebugOption debugSettings("settings");
 
 class RealSettingsFactory;
 
+//  White space around a value in a settings file is not part of the value, unless it's quoted.
+static std::string quote_value(std::string const &value)
+{
+    std::string ret(istat::sql_quote(value));
+    if (ret.size() && isspace((unsigned char)ret[ret.size()-1]))
+    {
+        ret.insert(ret.size()-1, "\\");
+    }
+    if (ret.size() && isspace((unsigned char)ret[0]))
+    {
+        ret.insert(0, "\\");
+    }
+    return ret;
+}
+
+static std::string unquote_value(std::string const &text)
+{
+    size_t begin = 0, end = text.size();
+    while (begin < end && isspace((unsigned char)text[begin]))
+    {
+        ++begin;
+    }
+    while (end > begin && isspace((unsigned char)text[end-1]))
+    {
+        size_t quotes = 0;
+        while (end-1-quotes > begin && text[end-2-quotes] == '\\')
+        {
+            ++quotes;
+        }
+        if (quotes & 1)
+        {
+            break;
+        }
+        --end;
+    }
+    return istat::sql_unquote(text.substr(begin, end-begin));
+}
+
 class RealSettings : public ISettings
 {
 public:
@@ -230,8 +268,7 @@ void RealSettingsFactory::loadSettingsPath(std::string const &path, std::string
                 if (2 == istat::split(right, '=', left, right))
                 {
                     istat::trim(left);
-                    right = istat::sql_unquote(right);
-                    istat::trim(right);
+                    right = unquote_value(right);
                     (debugSettings ? LogDebug : LogSpam) << left << "=" << right;
                     rs->settings_[left] = right;
                 }
@@ -404,7 +441,7 @@ void RealSettings::save(boost::shared_ptr<ISettings> const &me)
                 if ((*ptr).second.size())
                 {
                     //  empty string values are not saved -- same as "delete"
-                    ostr << (*ptr).first << "=" << istat::sql_quote((*ptr).second) << std::endl;
+                    ostr << (*ptr).first << "=" << quote_value((*ptr).second) << std::endl;
                 }
             }
         }
-- 
2.43.0


From 9f8829dd3287816337bdf0d772702167d18ab834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:10 +0000
Subject: [PATCH 55/65] fix: a crash or a full disk while settings were saved
 lost all of them

---
 daemon/Settings.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/daemon/Settings.cpp b/daemon/Settings.cpp
index fe68875..2847aa3 100644
--- a/daemon/Settings.cpp
+++ b/daemon/Settings.cpp
@@ -434,6 +434,10 @@ void RealSettings::save(boost::shared_ptr<ISettings> const &me)
         tmpName = fileName + ".tmp";
         {
             std::ofstream ostr(tmpName.c_str(), std::ios::binary | std::ios::out | std::ios::trunc);
+            if (!ostr.is_open())
+            {
+                throw std::runtime_error("settings: cannot create file: " + tmpName);
+            }
             ostr << "# istatd settings 1" << std::endl;
             for (std::map<std::string, std::string>::iterator ptr(settings_.begin()), end(settings_.end());
                 ptr != end; ++ptr)
@@ -444,13 +448,15 @@ void RealSettings::save(boost::shared_ptr<ISettings> const &me)
                     ostr << (*ptr).first << "=" << quote_value((*ptr).second) << std::endl;
                 }
             }
+            ostr.close();
+            if (!ostr)
+            {
+                boost::system::error_code ec;
+                boost::filesystem::remove(tmpName, ec);
+                throw std::runtime_error("settings: cannot write file: " + tmpName);
+            }
         }
-        //  Now, move the new file in place of the old.
-        //  First, remove the old file, to generate an error if we don't have permission.
-        if (boost::filesystem::exists(fileName))
-        {
-            boost::filesystem::remove(fileName);
-        }
+        //  Now, move the new file in place of the old, in one step.
         boost::filesystem::rename(tmpName, fileName);
     }
     else
-- 
2.43.0


From 7814d8e93380e9d1ef61b117ae03caf25bd471f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:10 +0000
Subject: [PATCH 56/65] fix: an error while saving settings escaped into the
 event loop and kept them from ever being saved

---
 daemon/Settings.cpp | 57 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/daemon/Settings.cpp b/daemon/Settings.cpp
index 2847aa3..3956183 100644
--- a/daemon/Settings.cpp
+++ b/daemon/Settings.cpp
@@ -86,7 +86,9 @@ public:
     void set(std::string const &key, std::string const &value);
 
     void queueSave();
-    void save(boost::shared_ptr<ISettings> const &me);
+    void onSaveTimer(boost::shared_ptr<ISettings> const &me, boost::system::error_code const &err);
+    bool save(boost::shared_ptr<ISettings> const &me);
+    void write();
 };
 
 
@@ -164,15 +166,22 @@ void RealSettingsFactory::flush(IComplete *complete)
     //  no need to asynchronize the actual work more than this
     //  because file I/O is not async
     grab aholdof(lock_);
+    std::vector<std::string> saved;
     for (std::map<std::string, boost::shared_ptr<ISettings> >::iterator
         ptr(files_.begin()), end(files_.end());
         ptr != end;
         ++ptr)
     {
-        static_cast<RealSettings *>((*ptr).second.get())->save((*ptr).second);
+        //  this allows all settings to be re-loaded if edited
+        if (static_cast<RealSettings *>((*ptr).second.get())->save((*ptr).second))
+        {
+            saved.push_back((*ptr).first);
+        }
+    }
+    for (size_t i = 0; i < saved.size(); ++i)
+    {
+        files_.erase(saved[i]);
     }
-    //  this allows all settings to be re-loaded if edited
-    files_.clear();
     svc_.post(boost::bind(&IComplete::on_complete, complete));
 }
 
@@ -184,8 +193,10 @@ void RealSettingsFactory::flush_one(std::string const &name, IComplete *complete
     grab aholdof(lock_);
     std::map<std::string, boost::shared_ptr<ISettings> >::iterator ptr(files_.find(name));
     if (ptr != files_.end()) {
-        static_cast<RealSettings *>((*ptr).second.get())->save((*ptr).second);
-        files_.erase(ptr);
+        if (static_cast<RealSettings *>((*ptr).second.get())->save((*ptr).second))
+        {
+            files_.erase(ptr);
+        }
     }
     svc_.post(boost::bind(&IComplete::on_complete, complete));
 }
@@ -417,14 +428,41 @@ void RealSettings::queueSave()
         saveQueued_ = true;
         //  possibly aggregate multiple updates into a single write
         saveTimer_.expires_from_now(boost::posix_time::seconds(10));
-        saveTimer_.async_wait(boost::bind(&RealSettings::save, this, shared_from_this()));
+        saveTimer_.async_wait(boost::bind(&RealSettings::onSaveTimer, this, shared_from_this(), boost::asio::placeholders::error));
+    }
+}
+
+void RealSettings::onSaveTimer(boost::shared_ptr<ISettings> const &me, boost::system::error_code const &err)
+{
+    if (!err)
+    {
+        save(me);
     }
 }
 
-void RealSettings::save(boost::shared_ptr<ISettings> const &me)
+bool RealSettings::save(boost::shared_ptr<ISettings> const &me)
 {
     (debugSettings ? LogDebug : LogSpam) << "RealSettings::save(" << name_ << ")";
     grab aholdof(lock_);
+    saveQueued_ = false;
+    try
+    {
+        write();
+    }
+    catch (std::exception const &x)
+    {
+        //  keep what's not saved, and try again later
+        LogError << "settings: cannot save:" << name_ << ":" << x.what();
+        queueSave();
+        return false;
+    }
+    dirty_ = false;
+    ++countSaves;
+    return true;
+}
+
+void RealSettings::write()
+{
     if (dirty_) {
         //  Only re-write if dirty. This allows a settings file to be edited on disk and re-loaded
         //  with a flush on the admin interface.
@@ -466,9 +504,6 @@ void RealSettings::save(boost::shared_ptr<ISettings> const &me)
             LogDebug << "settings not dirty";
         }
     }
-    saveQueued_ = false;
-    dirty_ = false;
-    ++countSaves;
 }
 
 
-- 
2.43.0


From 4101b8b6ff46e1c75d8a2b6da49b46680db9613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:03 +0000
Subject: [PATCH 57/65] fix: a setting made while settings were flushed was
 lost when the file was opened again

---
 daemon/Settings.cpp | 62 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 4 deletions(-)

diff --git a/daemon/Settings.cpp b/daemon/Settings.cpp
index 3956183..75f0a97 100644
--- a/daemon/Settings.cpp
+++ b/daemon/Settings.cpp
@@ -11,6 +11,7 @@
 #include <boost/filesystem.hpp>
 #include <boost/foreach.hpp>
 #include <boost/make_shared.hpp>
+#include <boost/weak_ptr.hpp>
 
 #include <map>
 #include <set>
@@ -80,6 +81,7 @@ public:
     std::map<std::string, std::string> settings_;
     bool saveQueued_;
     bool dirty_;
+    bool flushed_;
 
     void match(std::string const &pattern, std::vector<std::string> &oKeys);
     void get(std::string const &key, std::string &oValue, bool &wasSet, std::string const &dflt);
@@ -105,11 +107,15 @@ public:
     void open(std::string const &domain, bool allowCreate,
         boost::shared_ptr<ISettings> &settings, IComplete *complete);
     void get(std::string const &domain, boost::shared_ptr<ISettings> &settings);
+    void flushed(std::map<std::string, boost::shared_ptr<ISettings> >::iterator const &ptr);
+    void useAgain(RealSettings *set);
 
     boost::asio::io_service &svc_;
     std::string path_;
     lock lock_;
     std::map<std::string, boost::shared_ptr<ISettings> > files_;
+    //  someone may still hold on to flushed settings, and set more; there must only ever be one object per file
+    std::map<std::string, boost::weak_ptr<ISettings> > flushed_;
 
 };
 
@@ -180,7 +186,7 @@ void RealSettingsFactory::flush(IComplete *complete)
     }
     for (size_t i = 0; i < saved.size(); ++i)
     {
-        files_.erase(saved[i]);
+        flushed(files_.find(saved[i]));
     }
     svc_.post(boost::bind(&IComplete::on_complete, complete));
 }
@@ -195,12 +201,43 @@ void RealSettingsFactory::flush_one(std::string const &name, IComplete *complete
     if (ptr != files_.end()) {
         if (static_cast<RealSettings *>((*ptr).second.get())->save((*ptr).second))
         {
-            files_.erase(ptr);
+            flushed(ptr);
         }
     }
     svc_.post(boost::bind(&IComplete::on_complete, complete));
 }
 
+void RealSettingsFactory::flushed(std::map<std::string, boost::shared_ptr<ISettings> >::iterator const &ptr)
+{
+    RealSettings *rs = static_cast<RealSettings *>((*ptr).second.get());
+    {
+        grab aholdof(rs->lock_);
+        rs->flushed_ = true;
+    }
+    flushed_[(*ptr).first] = (*ptr).second;
+    files_.erase(ptr);
+}
+
+void RealSettingsFactory::useAgain(RealSettings *set)
+{
+    grab aholdof(lock_);
+    {
+        grab aholdof(set->lock_);
+        if (!set->flushed_)
+        {
+            return;
+        }
+    }
+    try
+    {
+        loadSettingsPath(path_ + "/" + set->name_ + ".set", set->name_);
+    }
+    catch (std::exception const &x)
+    {
+        LogWarning << "settings: cannot load:" << set->name_ << ":" << x.what();
+    }
+}
+
 void RealSettingsFactory::dispose()
 {
     (debugSettings ? LogDebug : LogSpam) << "RealSettingsFactory::flush()";
@@ -258,7 +295,12 @@ void RealSettingsFactory::loadSettingsPath(std::string const &path, std::string
     std::map<std::string, boost::shared_ptr<ISettings> >::iterator ptr(files_.find(name));
     if (ptr == files_.end())
     {
-        set = boost::make_shared<RealSettings>(this, name);
+        set = flushed_[name].lock();
+        flushed_.erase(name);
+        if (!set)
+        {
+            set = boost::make_shared<RealSettings>(this, name);
+        }
         files_[name] = set;
     }
     else
@@ -267,6 +309,16 @@ void RealSettingsFactory::loadSettingsPath(std::string const &path, std::string
     }
     RealSettings *rs = static_cast<RealSettings *>(set.get());
     grab aholdof(rs->lock_);
+    if (rs->flushed_)
+    {
+        rs->flushed_ = false;
+        if (rs->dirty_)
+        {
+            //  these are newer than the file
+            return;
+        }
+        rs->settings_.clear();
+    }
     for (char *cur = base; cur <= end; ++cur)
     {
         if (*cur == '\n')
@@ -358,7 +410,8 @@ RealSettings::RealSettings(RealSettingsFactory *rsf, std::string const &name) :
     name_(name),
     saveTimer_(rsf->svc_),
     saveQueued_(false),
-    dirty_(false)
+    dirty_(false),
+    flushed_(false)
 {
     LogSpam << "RealSettings::RealSettings(" << name << ")";
 }
@@ -408,6 +461,7 @@ void RealSettings::set(std::string const &key, std::string const &value)
     //  a valid key?
     if (is_valid_key(key))
     {
+        fac_->useAgain(this);
         grab aholdof(lock_);
         dirty_ = true;
         settings_[key] = value;
-- 
2.43.0


From 33d6abeee5458d8a97c2f5af8bc0c7baee07c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:36 +0000
Subject: [PATCH 58/65] fix: Prometheus values were rounded to six digits

---
 daemon/PromExporter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/daemon/PromExporter.cpp b/daemon/PromExporter.cpp
index 39354ab..701d978 100755
--- a/daemon/PromExporter.cpp
+++ b/daemon/PromExporter.cpp
@@ -53,6 +53,8 @@ void PromMetric::init(std::string const& ctr)
 std::string PromMetric::toString() const
 {
     std::stringstream ss;
+    //  as many digits as are exact: the default of 6 would round counters from a million on
+    ss.precision(15);
     if (tags_.empty())
     {
         if (type_ == PromMetric::PromTypeCounter) {
-- 
2.43.0


From 1385e31059d4a5c2232f465919bf97dc4898ae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:36 +0000
Subject: [PATCH 59/65] fix: quotes and backslashes in Prometheus label values
 made the whole page unreadable

---
 daemon/PromExporter.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/daemon/PromExporter.cpp b/daemon/PromExporter.cpp
index 701d978..451e37c 100755
--- a/daemon/PromExporter.cpp
+++ b/daemon/PromExporter.cpp
@@ -50,6 +50,21 @@ void PromMetric::init(std::string const& ctr)
     istat::prom_munge(name_);
 }
 
+//  label values can contain anything a counter name can
+static std::string prom_quote(std::string const &value)
+{
+    std::string ret;
+    for (std::string::const_iterator ptr(value.begin()), end(value.end()); ptr != end; ++ptr)
+    {
+        if (*ptr == '\\' || *ptr == '\"')
+        {
+            ret.push_back('\\');
+        }
+        ret.push_back(*ptr);
+    }
+    return ret;
+}
+
 std::string PromMetric::toString() const
 {
     std::stringstream ss;
@@ -70,11 +85,11 @@ std::string PromMetric::toString() const
         {
             ss << name_;
             std::tr1::unordered_map<std::string, std::string>::const_iterator mit = (*tit).begin();
-            ss << "{" << mit->first << "=\"" << mit->second << "\"";
+            ss << "{" << mit->first << "=\"" << prom_quote(mit->second) << "\"";
             ++mit;
             while (mit != (*tit).end())
             {
-                ss << "," << mit->first << "=\"" << mit->second << "\"";
+                ss << "," << mit->first << "=\"" << prom_quote(mit->second) << "\"";
                 ++mit;;
             }
             if (type_ == PromMetric::PromTypeCounter) {
-- 
2.43.0


From 0e5bdc574269f0e69ca628be7366e34550d774ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:36 +0000
Subject: [PATCH 60/65] fix: a counter named just * made the whole Prometheus
 page unreadable

---
 daemon/PromExporter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/daemon/PromExporter.cpp b/daemon/PromExporter.cpp
index 451e37c..d27317d 100755
--- a/daemon/PromExporter.cpp
+++ b/daemon/PromExporter.cpp
@@ -283,7 +283,11 @@ void PromExporter::extract_tags(
 
 void PromExporter::storeAmetric(std::string const & ctr, PromMetric const & prom_metric)
 {
-
+    if (prom_metric.getName().empty())
+    {
+        LogError << "PromExporter::storeAmetric no metric name in:" << ctr << ".";
+        return;
+    }
     if (PromMetric::PromTypeCounter == prom_metric.getType()) {
         CumulativeCountsMap::iterator cit = data_counters_.find(ctr);
         if (cit == data_counters_.end())
-- 
2.43.0


From 182657b66f5a6640ce437dbbcf90a0948c4c55d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:36 +0000
Subject: [PATCH 61/65] fix: the Prometheus page was labelled as JSON

---
 daemon/RequestInFlight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index 2f5e7b7..99ef40c 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -934,7 +934,7 @@ void RequestInFlight::servePrometheus(boost::shared_ptr<IPromExporter> &promPtr)
     promPtr->dumpMetrics(results, new_metrics);
     createPromResponse(results, new_metrics);
     LogSpam << "RequestInFlight::servePrometheus - done";
-    complete(200, "application/json");
+    complete(200, "text/plain; version=0.0.4");
 }
 
 void RequestInFlight::createPromResponse(std::vector<PromMetric> &prom_metrics, std::vector<PromMetric> &new_metrics)
-- 
2.43.0


From 08eb79139f5ad61d638176a5383eaf60325d635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:03 +0000
Subject: [PATCH 62/65] fix: a gauge and a counter with the same Prometheus
 name were given two types

---
 daemon/PromExporter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/daemon/PromExporter.cpp b/daemon/PromExporter.cpp
index d27317d..e608dbb 100755
--- a/daemon/PromExporter.cpp
+++ b/daemon/PromExporter.cpp
@@ -187,13 +187,15 @@ void PromExporter::dumpMetrics(std::vector<PromMetric> & res, std::vector<PromMe
 {
     grab aholdof(mutex_);
     // counters
+    std::tr1::unordered_set<std::string> new_gauges;
     CumulativeCountsMap::iterator cit;
     for (cit = data_counters_.begin(); cit != data_counters_.end(); ++cit)
     {
         new_metrics.push_back((*cit).second);
+        //  a gauge of the same name can't have another type
+        new_gauges.insert((*cit).second.getName());
     }
     //gauges
-    std::tr1::unordered_set<std::string> new_gauges;
     for (PromGaugeMap::iterator git = data_gauges_.begin(); git != data_gauges_.end(); ++git)
     {
         std::string mname = (*git).second.getName();
-- 
2.43.0


From 9e4c38b1e4d193e2052150b333e9063ab67a6389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:03 +0000
Subject: [PATCH 63/65] fix: Prometheus gauges showed the sum of the samples
 another agent collected, not their average

---
 daemon/StatServer.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index 8fccc87..f05cb7f 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -553,9 +553,20 @@ void StatServer::handle_counter_cmd(std::string const &cmd)
                     handle_forward_prom(parts[0], prom_base, cnames, 0, to_double(parts[1]));
                     break;
                 case 3: //  ctr, time, value
-                case 7: //  ctr, time, value, valuesq, min, max, cnt
                     handle_forward_prom(parts[0], prom_base, cnames, to_time_t(parts[1]), to_double(parts[2]));
                     break;
+                case 7: //  ctr, time, value, valuesq, min, max, cnt
+                {
+                    double val = to_double(parts[2]);
+                    size_t cnt = to_size_t(parts[6]);
+                    if (parts[0][0] != '*' && cnt > 1)
+                    {
+                        //  this is a sum; the gauge is the average
+                        val /= cnt;
+                    }
+                    handle_forward_prom(parts[0], prom_base, cnames, to_time_t(parts[1]), val);
+                    break;
+                }
                 default:
                     break;
             }
-- 
2.43.0


From 3ba9f5f026b5c12c96605205a8893c1e7a066eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:13 +0000
Subject: [PATCH 64/65] fix: the same Prometheus counter series was listed
 twice when its labels came in another order

---
 daemon/PromExporter.cpp | 22 ++++++++++++++++++++--
 daemon/PromExporter.h   |  1 +
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/daemon/PromExporter.cpp b/daemon/PromExporter.cpp
index e608dbb..d17da01 100755
--- a/daemon/PromExporter.cpp
+++ b/daemon/PromExporter.cpp
@@ -283,6 +283,23 @@ void PromExporter::extract_tags(
     }
 }
 
+//  the same series can be reported as *a.b or *a_b, and with its labels in any order
+std::string PromMetric::seriesName() const
+{
+    std::string ret(name_);
+    for (PromTagList::const_iterator tit = tags_.begin(); tit != tags_.end(); ++tit)
+    {
+        std::map<std::string, std::string> sorted((*tit).begin(), (*tit).end());
+        for (std::map<std::string, std::string>::iterator ptr(sorted.begin()), end(sorted.end());
+            ptr != end; ++ptr)
+        {
+            ret += "^" + (*ptr).first + "." + (*ptr).second;
+        }
+        ret += "^";
+    }
+    return ret;
+}
+
 void PromExporter::storeAmetric(std::string const & ctr, PromMetric const & prom_metric)
 {
     if (prom_metric.getName().empty())
@@ -291,10 +308,11 @@ void PromExporter::storeAmetric(std::string const & ctr, PromMetric const & prom
         return;
     }
     if (PromMetric::PromTypeCounter == prom_metric.getType()) {
-        CumulativeCountsMap::iterator cit = data_counters_.find(ctr);
+        std::string series(prom_metric.seriesName());
+        CumulativeCountsMap::iterator cit = data_counters_.find(series);
         if (cit == data_counters_.end())
         {
-            data_counters_.insert(std::pair<std::string, PromMetric>(ctr, prom_metric));
+            data_counters_.insert(std::pair<std::string, PromMetric>(series, prom_metric));
         }
         else
         {
diff --git a/daemon/PromExporter.h b/daemon/PromExporter.h
index e194ca3..0ccefc8 100755
--- a/daemon/PromExporter.h
+++ b/daemon/PromExporter.h
@@ -34,6 +34,7 @@ public:
     void accumulate(PromMetric const & prom_metric);
     inline const double & getValue() const { return value_; }
     inline const std::string & getName() const { return name_; }
+    std::string seriesName() const;
     inline const MetricType & getType() const { return type_; }
     inline const time_t & getTimestamp() const { return time_; }
     inline const bool getCounterStatus() const { return counter_updated_; }
-- 
2.43.0


From 09ee67214b948787c4b9289917f2462773e06cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:23 +0000
Subject: [PATCH 65/65] fix: an agent flush waited for the wrong agent when an
 unreachable one was skipped

---
 daemon/StatServer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index f05cb7f..b738a47 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -683,6 +683,7 @@ void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
 {
     std::tr1::unordered_map<std::string, Bucketizer> buckets;
     ForwardList conns;
+    std::vector<size_t> connIndices;
     {
         grab aholdof(forwardMutex_);
         buckets.swap(forwardBuckets_);
@@ -701,6 +702,7 @@ void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
                 }
                 if (connIndex >= noConnSize || noConnectionCounts_[connIndex] <= MAX_AGENT_CONN_TRIES) {
                     conns.push_back(*i);
+                    connIndices.push_back(connIndex);
                 }
             }
             ++connIndex;
@@ -750,7 +752,7 @@ void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
             if (!str.empty()) {
                 size_t pending = conns[i]->writeOut(str);
                 if (agentFlushRequest != NULL) {
-                    agentFlushRequest->add(i, pending);
+                    agentFlushRequest->add(connIndices[i], pending);
                 }
             }
         }
-- 
2.43.0

