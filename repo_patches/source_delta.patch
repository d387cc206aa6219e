From 0f7dbb5ac8df2c4741d1fbf2d7a0af155f528748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 001/114] fix: copying a TimeStep keeps the position in the
 step list

---
 src/SIM/TimeStep.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 96f69ae..6f52448 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -54,7 +54,8 @@ TimeStep& TimeStep::operator= (const TimeStep& ts)
 
   time = ts.time;
   mySteps = ts.mySteps;
-  stepIt = mySteps.begin();
+  TimeSteps::const_iterator tsIt = ts.stepIt;
+  stepIt = mySteps.begin() + (tsIt - ts.mySteps.begin());
   return *this;
 }
 
-- 
2.43.0


From 37dff82fce300f907e473ebdab33a2450577a594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 002/114] fix: TimeStep::reset restarts from the start time,
 not from zero

---
 src/SIM/TimeStep.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 6f52448..240edc7 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -212,7 +212,8 @@ bool TimeStep::reset (int istep)
   if (istep == 0)
     stopTime = mySteps.back().second;
   time.dt = mySteps.front().first.front();
-  time.dtn = time.t = time.CFL = 0.0;
+  time.t = starTime;
+  time.dtn = time.CFL = 0.0;
   for (int i = 0; i < istep; i++)
     if (!this->increment())
       return false;
-- 
2.43.0


From 3d8ce4c03f34f552b590bc40aa0039b59f4ba653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 003/114] fix: cut-back redoes the increment within its own
 step definition

---
 src/SIM/TimeStep.C | 23 +++++++++++++++++------
 src/SIM/TimeStep.h |  3 +++
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 240edc7..ea1d657 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -32,7 +32,8 @@ TimeStep::TimeStep () : step(0), iter(time.it), lstep(0)
   f1 = 1.5;
   f2 = 0.25;
   maxStep = niter = 0;
-  stepIt = mySteps.end();
+  currIt = stepIt = mySteps.end();
+  cstep = 0;
 }
 
 
@@ -56,6 +57,9 @@ TimeStep& TimeStep::operator= (const TimeStep& ts)
   mySteps = ts.mySteps;
   TimeSteps::const_iterator tsIt = ts.stepIt;
   stepIt = mySteps.begin() + (tsIt - ts.mySteps.begin());
+  tsIt = ts.currIt;
+  currIt = mySteps.begin() + (tsIt - ts.mySteps.begin());
+  cstep = ts.cstep;
   return *this;
 }
 
@@ -208,7 +212,8 @@ bool TimeStep::reset (int istep)
     return true;
   }
   lstep = step = 0;
-  stepIt = mySteps.begin();
+  currIt = stepIt = mySteps.begin();
+  cstep = 0;
   if (istep == 0)
     stopTime = mySteps.back().second;
   time.dt = mySteps.front().first.front();
@@ -272,9 +277,11 @@ bool TimeStep::increment ()
   niter = iter;
   time.t += time.dt;
 
+  currIt = stepIt;
+  cstep = lstep;
   if (stepIt != mySteps.end())
   {
-    if (stepIt->first.size() <= lstep)
+    if (stepIt->first.size() < lstep)
       stepIt->first.push_back(time.dt);
 
     if (this->hasReached(stepIt->second))
@@ -284,7 +291,8 @@ bool TimeStep::increment ()
         // Adjust the size of the last time step
         time.dt += stepIt->second - time.t;
         time.t = stepIt->second;
-        stepIt->first.back() = time.dt;
+        if (lstep > 0)
+          stepIt->first[lstep-1] = time.dt;
       }
       lstep = 0;
       ++stepIt;
@@ -321,8 +329,11 @@ bool TimeStep::cutback ()
   niter = 10;
   time.first = 'c';
   time.t += time.dt - dt;
-  if (stepIt != mySteps.end())
-    stepIt->first.back() = time.dt;
+  // The increment that diverged may have completed its step definition
+  stepIt = currIt;
+  lstep = cstep;
+  if (stepIt != mySteps.end() && lstep > 0)
+    stepIt->first[lstep-1] = time.dt;
 
   IFEM::cout <<"  ** Iterations diverged, trying cut-back with dt="
              << time.dt << std::endl;
diff --git a/src/SIM/TimeStep.h b/src/SIM/TimeStep.h
index e10d5ca..9cf5b9b 100644
--- a/src/SIM/TimeStep.h
+++ b/src/SIM/TimeStep.h
@@ -94,6 +94,9 @@ private:
   TimeSteps::iterator stepIt;  //!< Running iterator over the time steps
 
   size_t lstep; //!< Local step counter, i.e., within current \a *stepIt
+
+  TimeSteps::iterator currIt; //!< Step definition of the current increment
+  size_t              cstep;  //!< Local step counter of the current increment
 };
 
 #endif
-- 
2.43.0


From a34efdf3d9d6accbdbe0df1ad464eb0ad4e08ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 004/114] fix: restoring a TimeStep continues from the saved
 time and position

---
 src/SIM/TimeStep.C | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index ea1d657..2af5c7b 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -362,6 +362,16 @@ template<class T> void doSerializeOps (T& ar, TimeStep& tp)
   ar(tp.time.CFL);
   ar(tp.time.first);
 }
+
+//! \brief Serializes the TimeStep position data to/from the archive \a ar.
+template<class T> void doSerializePos (T& ar, TimeStep& tp, int& niter,
+                                       unsigned int& istep, unsigned int& lstep)
+{
+  ar(tp.iter);
+  ar(niter);
+  ar(istep);
+  ar(lstep);
+}
 #endif
 
 
@@ -372,6 +382,11 @@ bool TimeStep::serialize (std::map<std::string,std::string>& data) const
   {
     cereal::BinaryOutputArchive ar(str);
     doSerializeOps(ar,*const_cast<TimeStep*>(this));
+    TimeSteps::const_iterator it = stepIt;
+    int          nit = niter;
+    unsigned int ist = it - mySteps.begin();
+    unsigned int lst = lstep;
+    doSerializePos(ar,*const_cast<TimeStep*>(this),nit,ist,lst);
   }
   data.insert(std::make_pair("TimeStep",str.str()));
   return true;
@@ -389,7 +404,23 @@ bool TimeStep::deSerialize (const std::map<std::string,std::string>& data)
     std::stringstream str(it->second);
     cereal::BinaryInputArchive ar(str);
     doSerializeOps(ar,*this);
-    return this->reset(step);
+    if (str.peek() == EOF)
+      return this->reset(step); // Archive without the position data
+
+    unsigned int istep = 0, locStep = 0;
+    doSerializePos(ar,*this,niter,istep,locStep);
+
+    // Find the step definition to continue with. Use the local step counter
+    // of the archive only if this still is the same step definition.
+    stepIt = mySteps.begin();
+    while (stepIt != mySteps.end() && this->hasReached(stepIt->second))
+      ++stepIt;
+    currIt = stepIt;
+    lstep = stepIt - mySteps.begin() == istep ? locStep : 0;
+    if (stepIt != mySteps.end() && stepIt->first.size() < lstep)
+      stepIt->first.resize(lstep,stepIt->first.back());
+    cstep = lstep;
+    return true;
   }
 #endif
   return false;
-- 
2.43.0


From bd7e6b1e1b6163edfd2ac73a3ba0ae9c2230e3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 005/114] fix: ControlFIFO::poll wrote past its buffer when
 2048 bytes were pending

---
 src/Utility/ControlFIFO.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/ControlFIFO.C b/src/Utility/ControlFIFO.C
index 1beba48..1125f12 100644
--- a/src/Utility/ControlFIFO.C
+++ b/src/Utility/ControlFIFO.C
@@ -55,7 +55,7 @@ void ControlFIFO::poll ()
 
   char temp[2048];
   temp[0] = '\0';
-  int len = read(fifo, temp, 2048);
+  int len = read(fifo, temp, sizeof(temp)-1);
   if (len < 0)
     return;
 
-- 
2.43.0


From e1036af82f26663c5406777e93d8097d94443090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 006/114] fix: ControlFIFO::open reports when the fifo could
 not be opened

---
 src/Utility/ControlFIFO.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Utility/ControlFIFO.C b/src/Utility/ControlFIFO.C
index 1125f12..d1b7004 100644
--- a/src/Utility/ControlFIFO.C
+++ b/src/Utility/ControlFIFO.C
@@ -38,7 +38,9 @@ bool ControlFIFO::open (const char* name)
 #if !defined(__MINGW64__) || !defined(__MINGW32__)
   if (mkfifo(name, S_IWUSR | S_IRUSR | S_IRGRP | S_IROTH) == 0) {
     fifo = ::open(name, O_RDONLY | O_NONBLOCK);
-    return true;
+    if (fifo != -1)
+      return true;
+    unlink(name);
   }
   std::cerr <<" *** Error creating control fifo '"<< fifo_name <<"'\n"
             <<"     Application will not be externally controllable."
-- 
2.43.0


From db8842ea54a089434eabe999ba85a27c9ac9bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 007/114] fix: control messages split over, or merged into, one
 poll are not lost

---
 src/Utility/ControlFIFO.C | 89 +++++++++++++++++++++++++++++++++++----
 src/Utility/ControlFIFO.h |  5 +++
 2 files changed, 86 insertions(+), 8 deletions(-)

diff --git a/src/Utility/ControlFIFO.C b/src/Utility/ControlFIFO.C
index d1b7004..b8de104 100644
--- a/src/Utility/ControlFIFO.C
+++ b/src/Utility/ControlFIFO.C
@@ -17,6 +17,7 @@
 #include <sys/stat.h>
 #include <sys/types.h>
 #include <fcntl.h>
+#include <algorithm>
 #include <iostream>
 #include <unistd.h>
 
@@ -50,25 +51,97 @@ bool ControlFIFO::open (const char* name)
 }
 
 
+/*!
+  \brief Static helper finding the end of the first control message in \a data.
+  \return Index of the first character after the root element of the message,
+  or \e npos if the root element is not complete yet
+*/
+
+static size_t endOfMessage (const std::string& data)
+{
+  int depth = 0;
+  size_t i = 0;
+  while ((i = data.find('<',i)) != std::string::npos)
+    if (data.compare(i,4,"<!--") == 0)
+    {
+      if ((i = data.find("-->",i+4)) == std::string::npos) break;
+    }
+    else if (data.compare(i,9,"<![CDATA[") == 0)
+    {
+      if ((i = data.find("]]>",i+9)) == std::string::npos) break;
+    }
+    else
+    {
+      // Find the end of this tag, ignoring quoted attribute values
+      char quote = '\0';
+      size_t j = i+1;
+      for (; j < data.size() && (quote || data[j] != '>'); j++)
+        if (quote && data[j] == quote)
+          quote = '\0';
+        else if (!quote && (data[j] == '"' || data[j] == '\''))
+          quote = data[j];
+      if (j >= data.size()) break;
+
+      bool isElement = data[i+1] != '?' && data[i+1] != '!';
+      if (data[i+1] == '/')
+        --depth;
+      else if (isElement && data[j-1] != '/')
+        ++depth;
+
+      i = j+1;
+      if (isElement && depth <= 0)
+        return i;
+    }
+
+  return std::string::npos;
+}
+
+
 void ControlFIFO::poll ()
 {
   if (fifo == -1)
     return;
 
+  // Read what is available, but never more than a full pipe at a time
   char temp[2048];
-  temp[0] = '\0';
-  int len = read(fifo, temp, sizeof(temp)-1);
-  if (len < 0)
-    return;
+  ssize_t len = sizeof(temp);
+  for (int i = 0; i < 64 && len == sizeof(temp); i++)
+    if ((len = read(fifo, temp, sizeof(temp))) > 0)
+      pending.append(temp,len);
+
+  // Process all complete messages
+  while (!pending.empty())
+  {
+    // A null-character terminates the message in any case
+    size_t nul = pending.find('\0');
+    size_t end = endOfMessage(pending.substr(0,nul));
+    if (end == std::string::npos)
+    {
+      if (nul != std::string::npos)
+        end = nul;
+      else if (len == 0 || pending.size() > 1048576)
+        end = pending.size(); // The rest of this message will never arrive
+      else
+        return; // Wait for the rest of this message
+    }
 
-  temp[len] = '\0';
-  if (!strlen(temp))
+    this->process(pending.substr(0,end));
+    pending.erase(0,end);
+    pending.erase(0,pending.find_first_not_of(std::string(" \t\r\n\0",5)));
+  }
+}
+
+
+void ControlFIFO::process (const std::string& message)
+{
+  if (message.find_first_not_of(" \t\r\n") == std::string::npos)
     return;
 
+  // Ignore any stray text preceding the first tag
   tinyxml2::XMLDocument doc;
-  doc.Parse(temp);
+  doc.Parse(message.c_str() + std::min(message.find('<'),message.size()));
   if (!doc.RootElement()) {
-    std::cerr <<" *** Invalid control data received:\n"<< temp << std::endl;
+    std::cerr <<" *** Invalid control data received:\n"<< message << std::endl;
     return;
   }
 
diff --git a/src/Utility/ControlFIFO.h b/src/Utility/ControlFIFO.h
index 64e4e81..bec73ba 100644
--- a/src/Utility/ControlFIFO.h
+++ b/src/Utility/ControlFIFO.h
@@ -62,6 +62,11 @@ public:
   void poll();
 
 private:
+  //! \brief Processes a complete control message.
+  //! \param[in] message The XML-formatted message
+  void process(const std::string& message);
+
+  std::string pending;   //!< Received data that has not been processed yet
   std::string fifo_name; //!< Name of filesystem entry of our fifo
   int         fifo;      //!< fifo handle
 
-- 
2.43.0


From 9867a805e7affd97ddf73091d294b8d3f47584bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 008/114] fix: failures while writing or reading a restart file
 are reported

The HDF5 status codes of the group, dataset and file operations were ignored,
so a full disk or an I/O error produced a truncated restart level that was
reported as written, and read errors returned uninitialized data.
---
 src/Utility/HDF5Base.C    | 12 ++++++---
 src/Utility/HDF5Base.h    |  3 ++-
 src/Utility/HDF5Restart.C | 54 +++++++++++++++++++++++++++------------
 3 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/src/Utility/HDF5Base.C b/src/Utility/HDF5Base.C
index e041436..de27c62 100644
--- a/src/Utility/HDF5Base.C
+++ b/src/Utility/HDF5Base.C
@@ -63,6 +63,7 @@ bool HDF5Base::openFile (unsigned int flags)
 
   if (m_file < 0)
   {
+    m_file = -1;
     std::cerr <<" *** HDF5Base: Failed to open "<< m_hdf5_name << std::endl;
     return false;
   }
@@ -78,13 +79,18 @@ bool HDF5Base::openFile (unsigned int flags)
 }
 
 
-void HDF5Base::closeFile()
+bool HDF5Base::closeFile()
 {
+  bool ok = true;
 #ifdef HAS_HDF5
-  if (m_file != -1)
-    H5Fclose(m_file);
+  if (m_file >= 0)
+  {
+    ok  = H5Fflush(m_file,H5F_SCOPE_GLOBAL) >= 0;
+    ok &= H5Fclose(m_file) >= 0;
+  }
   m_file = -1;
 #endif
+  return ok;
 }
 
 
diff --git a/src/Utility/HDF5Base.h b/src/Utility/HDF5Base.h
index 6f87552..0a8ec18 100644
--- a/src/Utility/HDF5Base.h
+++ b/src/Utility/HDF5Base.h
@@ -41,7 +41,8 @@ protected:
   //! \param[in] flag Mode to open file using
   bool openFile(unsigned int flag);
   //! \brief Closes the HDF5 file.
-  void closeFile();
+  //! \return \e false if some buffered data could not be written to the file
+  bool closeFile();
 
 #ifdef HAS_HDF5
   //! \brief Internal helper function checking if a group exists in the file.
diff --git a/src/Utility/HDF5Restart.C b/src/Utility/HDF5Restart.C
index d41a9d0..0c54a94 100644
--- a/src/Utility/HDF5Restart.C
+++ b/src/Utility/HDF5Restart.C
@@ -55,10 +55,15 @@ bool HDF5Restart::writeData (const SerializeData& data)
   if (!this->openFile(flag))
     return false;
 
+  bool ok = true;
   std::stringstream str;
   str << '/' << ++m_level;
   if (!checkGroupExistence(m_file,str.str().c_str()))
-    H5Gclose(H5Gcreate2(m_file,str.str().c_str(),0,H5P_DEFAULT,H5P_DEFAULT));
+  {
+    hid_t level = H5Gcreate2(m_file,str.str().c_str(),0,
+                             H5P_DEFAULT,H5P_DEFAULT);
+    ok = level >= 0 && H5Gclose(level) >= 0;
+  }
 
 #ifdef HAVE_MPI
   int pid  = m_adm.getProcId();
@@ -75,7 +80,7 @@ bool HDF5Restart::writeData (const SerializeData& data)
   auto&& writeGroup = []
 #endif
       (hid_t group, const std::string& name,
-       int len, const void* data, hid_t type)
+       int len, const void* data, hid_t type) -> bool
   {
 #ifdef HAVE_MPI
     std::vector<int> lens(ptot), lens2(ptot);
@@ -90,18 +95,21 @@ bool HDF5Restart::writeData (const SerializeData& data)
     hid_t space = H5Screate_simple(1,&siz,nullptr);
     hid_t set = H5Dcreate2(group,name.c_str(),
                            type,space,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT);
-    if (len > 0) {
+    bool ok = set >= 0;
+    if (ok && len > 0) {
       hid_t filespace = H5Dget_space(set);
       siz = len;
       hsize_t stride = 1;
       H5Sselect_hyperslab(filespace,H5S_SELECT_SET,&start,&stride,&siz,nullptr);
       hid_t memspace = H5Screate_simple(1,&siz,nullptr);
-      H5Dwrite(set,type,memspace,filespace,H5P_DEFAULT,data);
+      ok = H5Dwrite(set,type,memspace,filespace,H5P_DEFAULT,data) >= 0;
       H5Sclose(memspace);
       H5Sclose(filespace);
     }
-    H5Dclose(set);
+    if (set >= 0)
+      ok &= H5Dclose(set) >= 0;
     H5Sclose(space);
+    return ok;
   };
 
   for (int p = 0; p < ptot; p++)
@@ -113,20 +121,28 @@ bool HDF5Restart::writeData (const SerializeData& data)
         group = H5Gopen2(m_file,str.str().c_str(),H5P_DEFAULT);
       else
         group = H5Gcreate2(m_file,str.str().c_str(),0,H5P_DEFAULT,H5P_DEFAULT);
+      if (group < 0) {
+        ok = false;
+        continue;
+      }
       if (!H5Lexists(group, it.first.c_str(), 0)) {
         int len = pid == p ? it.second.size() : 0;
-        writeGroup(group, it.first, len, it.second.data(), H5T_NATIVE_CHAR);
+        ok &= writeGroup(group, it.first, len,
+                         it.second.data(), H5T_NATIVE_CHAR);
       }
-      H5Gclose(group);
+      ok &= H5Gclose(group) >= 0;
     }
 
-  this->closeFile();
+  ok &= this->closeFile();
+  if (!ok)
+    std::cerr <<" *** HDF5Restart: Failed to write restart level "<< m_level
+              <<" to "<< m_hdf5_name << std::endl;
+  return ok;
 
 #else
   std::cout <<"HDF5Restart: Compiled without HDF5 support, no data written."<< std::endl;
-#endif
-
   return true;
+#endif
 }
 
 
@@ -145,14 +161,19 @@ static herr_t read_restart_data (hid_t group_id, const char* name, void* data)
 
   hid_t setId = H5Dopen2(group_id,name,H5P_DEFAULT);
   if (setId < 0) return setId; // Result set not found
-  hsize_t siz = H5Dget_storage_size(setId);
-  if (siz < 1) return 0; // Empty result set
-  char* cdata = new char[siz];
-  H5Dread(setId,H5T_NATIVE_CHAR,H5S_ALL,H5S_ALL,H5P_DEFAULT,cdata);
+  hid_t space = H5Dget_space(setId);
+  hssize_t siz = space < 0 ? -1 : H5Sget_simple_extent_npoints(space);
+  herr_t status = siz < 0 ? -1 : 0;
+  if (siz > 0)
+  {
+    std::string cdata(siz,'\0');
+    status = H5Dread(setId,H5T_NATIVE_CHAR,H5S_ALL,H5S_ALL,H5P_DEFAULT,&cdata[0]);
+    if (status >= 0) ctx->first[name].swap(cdata);
+  }
+  if (space >= 0) H5Sclose(space);
   H5Dclose(setId);
-  ctx->first[name] = std::string(cdata,siz);
 
-  return 0;
+  return status < 0 ? -1 : 0;
 }
 #endif
 
@@ -188,6 +209,7 @@ int HDF5Restart::readData (SerializeData& data, int level, bool basis)
   int idx = 0;
   read_restart_ctx ctx(data,basis);
   int it = H5Giterate(m_file, str.str().c_str(), &idx, read_restart_data, &ctx);
+  this->closeFile();
   return it < 0 ? it : level;
 #else
   std::cout <<"HDF5Writer: Compiled without HDF5 support, no data read."<< std::endl;
-- 
2.43.0


From fcce4979ac0fd33e84d640099d70daa1a6cbc7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 009/114] fix: empty restart data sets are returned when
 reading back

---
 src/Utility/HDF5Restart.C | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Utility/HDF5Restart.C b/src/Utility/HDF5Restart.C
index 0c54a94..41407ec 100644
--- a/src/Utility/HDF5Restart.C
+++ b/src/Utility/HDF5Restart.C
@@ -164,10 +164,11 @@ static herr_t read_restart_data (hid_t group_id, const char* name, void* data)
   hid_t space = H5Dget_space(setId);
   hssize_t siz = space < 0 ? -1 : H5Sget_simple_extent_npoints(space);
   herr_t status = siz < 0 ? -1 : 0;
-  if (siz > 0)
+  if (siz >= 0)
   {
     std::string cdata(siz,'\0');
-    status = H5Dread(setId,H5T_NATIVE_CHAR,H5S_ALL,H5S_ALL,H5P_DEFAULT,&cdata[0]);
+    if (siz > 0)
+      status = H5Dread(setId,H5T_NATIVE_CHAR,H5S_ALL,H5S_ALL,H5P_DEFAULT,&cdata[0]);
     if (status >= 0) ctx->first[name].swap(cdata);
   }
   if (space >= 0) H5Sclose(space);
-- 
2.43.0


From bae81a46131d67e35f092506ecf541093b2e929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 010/114] fix: restart levels left by an earlier run are not
 kept or returned

Writing a restart level that already existed in the file silently kept the
old data, and reading the last level returned stale ones from a longer run.
---
 src/Utility/HDF5Restart.C | 44 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/Utility/HDF5Restart.C b/src/Utility/HDF5Restart.C
index 41407ec..3fd22a1 100644
--- a/src/Utility/HDF5Restart.C
+++ b/src/Utility/HDF5Restart.C
@@ -47,6 +47,44 @@ bool HDF5Restart::dumpStep (const TimeStep& tp)
 }
 
 
+#ifdef HAS_HDF5
+/*!
+  \brief Helper removing the given time level and all later ones from the file.
+  \details Such levels are left there by an earlier simulation that was run from
+  scratch, or was restarted from an earlier level, when using the same file.
+*/
+
+static bool remove_old_levels (hid_t file, int level)
+{
+  using LevelNames = std::vector<std::string>;
+
+  // Lambda function collecting the names of all time level groups.
+  auto&& get_levels = [] (hid_t, const char* name, void* data) -> herr_t
+  {
+    static_cast<LevelNames*>(data)->push_back(name);
+    return 0;
+  };
+
+  int idx = 0;
+  LevelNames levels;
+  if (H5Giterate(file, "/", &idx, get_levels, &levels) < 0)
+    return false;
+
+  bool removed = false;
+  for (const std::string& name : levels)
+    if (atoi(name.c_str()) >= level)
+    {
+      if (H5Ldelete(file, name.c_str(), H5P_DEFAULT) < 0)
+        return false;
+      removed = true;
+    }
+
+  // Ensure the file no longer refers to the released space before it is reused
+  return !removed || H5Fflush(file, H5F_SCOPE_GLOBAL) >= 0;
+}
+#endif
+
+
 bool HDF5Restart::writeData (const SerializeData& data)
 {
 #ifdef HAS_HDF5
@@ -55,10 +93,10 @@ bool HDF5Restart::writeData (const SerializeData& data)
   if (!this->openFile(flag))
     return false;
 
-  bool ok = true;
+  bool ok = remove_old_levels(m_file,++m_level);
   std::stringstream str;
-  str << '/' << ++m_level;
-  if (!checkGroupExistence(m_file,str.str().c_str()))
+  str << '/' << m_level;
+  if (ok && !checkGroupExistence(m_file,str.str().c_str()))
   {
     hid_t level = H5Gcreate2(m_file,str.str().c_str(),0,
                              H5P_DEFAULT,H5P_DEFAULT);
-- 
2.43.0


From ea10ff41c94f3055766801364fa828c36b499173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 011/114] fix: a failed restart level is not left half-written
 in the file

---
 src/Utility/HDF5Restart.C | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Utility/HDF5Restart.C b/src/Utility/HDF5Restart.C
index 3fd22a1..c5ddc62 100644
--- a/src/Utility/HDF5Restart.C
+++ b/src/Utility/HDF5Restart.C
@@ -150,7 +150,7 @@ bool HDF5Restart::writeData (const SerializeData& data)
     return ok;
   };
 
-  for (int p = 0; p < ptot; p++)
+  for (int p = 0; p < ptot && ok; p++)
     for (const std::pair<const std::string,std::string>& it : data) {
       std::stringstream str;
       str << m_level << '/' << p;
@@ -163,14 +163,14 @@ bool HDF5Restart::writeData (const SerializeData& data)
         ok = false;
         continue;
       }
-      if (!H5Lexists(group, it.first.c_str(), 0)) {
-        int len = pid == p ? it.second.size() : 0;
-        ok &= writeGroup(group, it.first, len,
-                         it.second.data(), H5T_NATIVE_CHAR);
-      }
+      int len = pid == p ? it.second.size() : 0;
+      ok &= writeGroup(group, it.first, len,
+                       it.second.data(), H5T_NATIVE_CHAR);
       ok &= H5Gclose(group) >= 0;
     }
 
+  if (!ok) // don't leave an incomplete level in the file
+    H5Ldelete(m_file,std::to_string(m_level).c_str(),H5P_DEFAULT);
   ok &= this->closeFile();
   if (!ok)
     std::cerr <<" *** HDF5Restart: Failed to write restart level "<< m_level
-- 
2.43.0


From e7e1822524c616fff9fe38b144e6d5fa6d8b89d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 012/114] fix: vector fields are written to the HDF5 file

The time level was passed where the handle of its group is needed,
so fields registered as VECTOR were never written.
---
 src/Utility/HDF5Writer.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index fa495fa..c21cd5f 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -199,7 +199,7 @@ void HDF5Writer::writeVector(int level, const DataEntry& entry)
   if (entry.second.field == DataExporter::VECTOR) {
     Vector* dvec = (Vector*)entry.second.data;
     int len = rank == 0 ? dvec->size() : 0;
-    this->writeArray(level,entry.first,1,len,dvec->ptr(),H5T_NATIVE_DOUBLE);
+    this->writeArray(group,entry.first,1,len,dvec->ptr(),H5T_NATIVE_DOUBLE);
   }
   else if (entry.second.field == DataExporter::INTVECTOR) {
     std::vector<int>* ivec = (std::vector<int>*)entry.second.data;
-- 
2.43.0


From 7625b5e2ef2ba9b839235fbe36b7c4f818787a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 013/114] fix: HDF5Writer::getLastTimeLevel returned the number
 of levels

Appending to an existing file therefore left out one time level, and the
next session tried to write a level that was already there.
---
 src/Utility/HDF5Writer.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index c21cd5f..e41a218 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -65,8 +65,8 @@ int HDF5Writer::getLastTimeLevel ()
 #endif
 
   if (hid_t fid = H5Fopen(m_name.c_str(),m_flag,acc_tpl); fid >= 0) {
-    for (bool ok = true; ok; result++)
-      ok = checkGroupExistence(fid, ("/" + std::to_string(result)).c_str());
+    while (checkGroupExistence(fid, ("/" + std::to_string(result)).c_str()))
+      result++;
     H5Fclose(fid);
   }
   else
-- 
2.43.0


From 52c669b84fde9f87ad05522720183ce4b61007ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 014/114] fix: a field without value does not leave the result
 file open

DataExporter::dumpTimeLevel returned in the middle of a time level, and the
data of the next level then went to groups that did not exist.
---
 src/Utility/DataExporter.C | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Utility/DataExporter.C b/src/Utility/DataExporter.C
index c42747a..4f9a683 100644
--- a/src/Utility/DataExporter.C
+++ b/src/Utility/DataExporter.C
@@ -115,6 +115,10 @@ bool DataExporter::dumpTimeLevel (const TimeStep* tp, bool geoUpd, bool doLog)
 
   PROFILE1("DataExporter::dumpTimeLevel");
 
+  for (const std::pair<const std::string,FileEntry>& it : m_entry)
+    if (!it.second.data)
+      return false;
+
   ++m_level;
   double time = tp ? tp->time.t : 0.0;
   if (tp && doLog)
@@ -124,8 +128,6 @@ bool DataExporter::dumpTimeLevel (const TimeStep* tp, bool geoUpd, bool doLog)
   for (DataWriter* writer : m_writers) {
     writer->openFile(m_level);
     for (const std::pair<const std::string,DataExporter::FileEntry>& it : m_entry) {
-      if (!it.second.data)
-        return false;
       switch (it.second.field) {
         case INTVECTOR:
         case VECTOR:
-- 
2.43.0


From 2d7b4aefe26ccf827fc76d08d15c8ceffc2068a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 015/114] fix: HDF5Reader reports missing data sets and read
 errors

The status of opening and reading a data set was ignored, so that an I/O
error gave uninitialized or zero values that were reported as read.
---
 src/Utility/HDF5Reader.C | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/Utility/HDF5Reader.C b/src/Utility/HDF5Reader.C
index 9d3b634..2b78c02 100644
--- a/src/Utility/HDF5Reader.C
+++ b/src/Utility/HDF5Reader.C
@@ -43,14 +43,17 @@ static bool hdf5Read(hid_t file, hid_t type,
                      const std::string& path, std::vector<T>& vec)
 {
   hid_t set = H5Dopen2(file,path.c_str(),H5P_DEFAULT);
+  if (set < 0)
+    return false;
+
+  bool ok = false;
   hsize_t size = H5Dget_storage_size(set) / sizeof(T);
   if (size != 0) {
     vec.resize(size);
-    H5Dread(set,type,H5S_ALL,H5S_ALL,H5P_DEFAULT,&vec[0]);
-    H5Dclose(set);
-    return true;
+    ok = H5Dread(set,type,H5S_ALL,H5S_ALL,H5P_DEFAULT,&vec[0]) >= 0;
   }
-  return false;
+  H5Dclose(set);
+  return ok;
 }
 #endif
 
@@ -109,12 +112,19 @@ bool HDF5Reader::readString (const std::string& name, std::string& out)
     return false;
 
   hid_t set = H5Dopen2(m_file,name.c_str(),H5P_DEFAULT);
+  if (set < 0)
+    return false;
+
   hid_t space = H5Dget_space(set);
-  hsize_t siz = H5Sget_simple_extent_npoints(space);
-  out.resize(siz);
-  H5Dread(set,H5T_NATIVE_CHAR,H5S_ALL,H5S_ALL,H5P_DEFAULT,&out[0]);
+  hssize_t siz = H5Sget_simple_extent_npoints(space);
+  bool ok = siz >= 0;
+  if (ok)
+    out.resize(siz);
+  if (siz > 0)
+    ok = H5Dread(set,H5T_NATIVE_CHAR,H5S_ALL,H5S_ALL,H5P_DEFAULT,&out[0]) >= 0;
+  H5Sclose(space);
   H5Dclose(set);
-  return true;
+  return ok;
 #else
   std::cerr << "HDF5Reader: compiled without HDF5 support, no data read" << std::endl;
   return false;
@@ -129,23 +139,31 @@ bool HDF5Reader::read3DArray (const std::string& name, Matrix3D& out)
     return false;
 
   hid_t set = H5Dopen2(m_file,name.c_str(),H5P_DEFAULT);
+  if (set < 0)
+    return false;
+
   hid_t space = H5Dget_space(set);
-  hsize_t dims = H5Sget_simple_extent_ndims(space);
+  int dims = H5Sget_simple_extent_ndims(space);
 
   if (dims != 3) {
     std::cerr << "HDF5Reader: Wrong dimension for field " << name << std::endl;
+    H5Sclose(space);
+    H5Dclose(set);
     return false;
   }
 
   std::array<hsize_t, 3> ndim;
 
   H5Sget_simple_extent_dims(space, ndim.data(), nullptr);
+  H5Sclose(space);
 
   out.resize(ndim[0],ndim[1],ndim[2]);
 
   std::vector<double> test(ndim[0]*ndim[1]*ndim[2]);
-  H5Dread(set,H5T_NATIVE_DOUBLE,H5S_ALL,H5S_ALL,H5P_DEFAULT,test.data());
+  bool ok = H5Dread(set,H5T_NATIVE_DOUBLE,H5S_ALL,H5S_ALL,H5P_DEFAULT,test.data()) >= 0;
   H5Dclose(set);
+  if (!ok)
+    return false;
 
   auto it = test.begin();
   for (hsize_t i = 0; i < ndim[0]; ++i)
-- 
2.43.0


From 46b66210063594e5749e8fb4329a7f0fbaa6864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 016/114] fix: failures while exporting results to HDF5 are
 reported

DataExporter::dumpTimeLevel returned true also when the file could not be
opened, or the data was lost due to a full disk or other I/O errors.
Multiple writes of the same data set are still ignored, as before.
---
 src/Utility/DataExporter.C | 10 +++++--
 src/Utility/DataExporter.h |  3 +-
 src/Utility/HDF5Writer.C   | 60 +++++++++++++++++++++++++-------------
 src/Utility/HDF5Writer.h   |  4 ++-
 4 files changed, 53 insertions(+), 24 deletions(-)

diff --git a/src/Utility/DataExporter.C b/src/Utility/DataExporter.C
index 4f9a683..f48a5a2 100644
--- a/src/Utility/DataExporter.C
+++ b/src/Utility/DataExporter.C
@@ -125,6 +125,7 @@ bool DataExporter::dumpTimeLevel (const TimeStep* tp, bool geoUpd, bool doLog)
     IFEM::cout <<"  Dumping results for step="<< tp->step <<" time="
                << time <<" (time level "<< m_level <<")"<< std::endl;
 
+  bool status = true;
   for (DataWriter* writer : m_writers) {
     writer->openFile(m_level);
     for (const std::pair<const std::string,DataExporter::FileEntry>& it : m_entry) {
@@ -154,7 +155,12 @@ bool DataExporter::dumpTimeLevel (const TimeStep* tp, bool geoUpd, bool doLog)
     if (tp && tp->multiSteps())
       writer->writeTimeInfo(m_level,time);
 
-    writer->closeFile(m_level);
+    if (!writer->closeFile(m_level))
+    {
+      std::cerr <<" *** DataExporter: Failed to write time level "<< m_level
+                <<" to "<< writer->getName() << std::endl;
+      status = false;
+    }
   }
 
   // disable fields marked as once
@@ -162,7 +168,7 @@ bool DataExporter::dumpTimeLevel (const TimeStep* tp, bool geoUpd, bool doLog)
     if (abs(it.second.results) & ONCE)
       it.second.enabled = false;
 
-  return true;
+  return status;
 }
 
 
diff --git a/src/Utility/DataExporter.h b/src/Utility/DataExporter.h
index a243b75..b69083e 100644
--- a/src/Utility/DataExporter.h
+++ b/src/Utility/DataExporter.h
@@ -176,7 +176,8 @@ public:
 
   //! \brief Closes the file.
   //! \param[in] level Level we just wrote to the file
-  virtual void closeFile(int level) = 0;
+  //! \return \e false if anything went wrong since the file was opened
+  virtual bool closeFile(int level) = 0;
 
   //! \brief Writes a vector to file.
   //! \param[in] level The time level to write the vector at
diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index e41a218..f6b94bb 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -99,22 +99,24 @@ void HDF5Writer::openFile(int level)
 #endif
   }
 
-  if (HDF5Base::openFile(m_flag))
+  m_ok = HDF5Base::openFile(m_flag);
+  if (m_ok)
     this->addGroup("/" + std::to_string(level));
 #endif
 }
 
 
-void HDF5Writer::closeFile(int level)
+bool HDF5Writer::closeFile(int level)
 {
+  bool ok = true;
 #ifdef HAS_HDF5
   if (m_file != -1) {
-    H5Fflush(m_file,H5F_SCOPE_GLOBAL);
-    H5Fclose(m_file);
+    m_flag = H5F_ACC_RDWR;
+    m_ok &= HDF5Base::closeFile();
   }
-  m_flag = H5F_ACC_RDWR;
-  m_file = -1;
+  std::swap(ok,m_ok);
 #endif
+  return ok;
 }
 
 
@@ -124,7 +126,11 @@ void HDF5Writer::addGroup(const std::string& path) const
   if (checkGroupExistence(m_file, path.c_str()))
     return;
 
-  H5Gclose(H5Gcreate2(m_file, path.c_str(), 0, H5P_DEFAULT, H5P_DEFAULT));
+  hid_t group = H5Gcreate2(m_file, path.c_str(), 0, H5P_DEFAULT, H5P_DEFAULT);
+  if (group < 0)
+    m_ok = false;
+  else
+    H5Gclose(group);
 }
 
 
@@ -134,9 +140,12 @@ hid_t HDF5Writer::getGroup(const std::string& path, hid_t group) const
     group = m_file;
 
   if (checkGroupExistence(group, path.c_str()))
-    return H5Gopen2(group, path.c_str(), H5P_DEFAULT);
+    group = H5Gopen2(group, path.c_str(), H5P_DEFAULT);
   else
-    return H5Gcreate2(group, path.c_str(), 0, H5P_DEFAULT, H5P_DEFAULT);
+    group = H5Gcreate2(group, path.c_str(), 0, H5P_DEFAULT, H5P_DEFAULT);
+  if (group < 0)
+    m_ok = false;
+  return group;
 }
 
 
@@ -159,25 +168,30 @@ void HDF5Writer::writeArray(hid_t group, const std::string& name, int patch,
   }
 #endif
   hid_t group1 = patch > -1 ? this->getGroup(name,group) : -1;
+  hid_t parent = patch > -1 ? group1 : group;
+  std::string setName = patch > -1 ? std::to_string(patch) : name;
+  if (parent < 0 || checkGroupExistence(parent,setName.c_str())) {
+    m_ok &= parent >= 0; // silently ignore multiple writes of the same data
+    if (group1 != -1)
+      H5Gclose(group1);
+    return;
+  }
   hid_t space = H5Screate_simple(1,&siz,nullptr);
-  hid_t set;
-  if (patch > -1)
-    set = H5Dcreate2(group1, std::to_string(patch).c_str(), type, space,
-                     H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
-  else
-    set = H5Dcreate2(group, name.c_str(), type, space,
-                     H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
-  if (len > 0) {
+  hid_t set = H5Dcreate2(parent, setName.c_str(), type, space,
+                         H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
+  m_ok &= set >= 0;
+  if (set >= 0 && len > 0) {
     hid_t file_space = H5Dget_space(set);
     siz = len;
     hsize_t stride = 1;
     H5Sselect_hyperslab(file_space,H5S_SELECT_SET,&start,&stride,&siz,nullptr);
     hid_t mem_space = H5Screate_simple(1,&siz,nullptr);
-    H5Dwrite(set,type,mem_space,file_space,H5P_DEFAULT,data);
+    m_ok &= H5Dwrite(set,type,mem_space,file_space,H5P_DEFAULT,data) >= 0;
     H5Sclose(mem_space);
     H5Sclose(file_space);
   }
-  H5Dclose(set);
+  if (set >= 0)
+    m_ok &= H5Dclose(set) >= 0;
   H5Sclose(space);
   if (group1 != -1)
     H5Gclose(group1);
@@ -196,6 +210,10 @@ void HDF5Writer::writeVector(int level, const DataEntry& entry)
     MPI_Comm_rank(*m_adm.getCommunicator(), &rank);
 #endif
   hid_t group = H5Gopen2(m_file, std::to_string(level).c_str(), H5P_DEFAULT);
+  if (group < 0) {
+    m_ok = false;
+    return;
+  }
   if (entry.second.field == DataExporter::VECTOR) {
     Vector* dvec = (Vector*)entry.second.data;
     int len = rank == 0 ? dvec->size() : 0;
@@ -290,8 +308,10 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
     if (exportSol && !sol->empty())
       group.push_back(this->getGroup(basis + "/fields"));
   }
-  if (proj && sim->fieldProjections())
+  if (proj && sim->fieldProjections()) {
+    this->addGroup(str + "-proj");
     group.push_back(this->getGroup(str + "-proj/fields"));
+  }
 
   // Lambda function for extracting projected solution for a patch.
   size_t projOfs = 0;
diff --git a/src/Utility/HDF5Writer.h b/src/Utility/HDF5Writer.h
index 1507c44..33f9b13 100644
--- a/src/Utility/HDF5Writer.h
+++ b/src/Utility/HDF5Writer.h
@@ -48,7 +48,8 @@ public:
 
   //! \brief Closes the file.
   //! \param[in] level Level we just wrote to the file
-  virtual void closeFile(int level);
+  //! \return \e false if anything went wrong since the file was opened
+  virtual bool closeFile(int level);
 
   //! \brief Writes a vector to file.
   //! \param[in] level The time level to write the vector at
@@ -130,6 +131,7 @@ protected:
 
 private:
   unsigned int m_flag; //!< The file flags to open HDF5 file with
+  mutable bool m_ok = true; //!< If \e false, writing to the file has failed
 #endif
 };
 
-- 
2.43.0


From 60dae6c7ba162cda4b6dfe2cfc12ef089eaea9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 017/114] fix: a field registered without value is recognized
 as such

---
 src/Utility/DataExporter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/DataExporter.h b/src/Utility/DataExporter.h
index b69083e..4d388fd 100644
--- a/src/Utility/DataExporter.h
+++ b/src/Utility/DataExporter.h
@@ -69,7 +69,7 @@ public:
                              //! \details A negative value indicates that we
                              //! want to use the description as name for the
                              //! primary vector, not the name of the Integrand.
-    const void* data;        //!< Pointer to the primary data (e.g. a SIM class)
+    const void* data = nullptr; //!< Pointer to the primary data (e.g. a SIM class)
     std::vector<const void*> data2; //!< Pointers to the secondary data (e.g. a vector)
     std::string prefix;      //!< Field name prefix
     bool enabled;            //!< Whether or not field is enabled
-- 
2.43.0


From b989600aabd4c991981bb22239f36c71eb9d82e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 018/114] fix: a failed result level is not left half-written
 in the file

---
 src/Utility/HDF5Writer.C | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index f6b94bb..5dc5614 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -112,6 +112,8 @@ bool HDF5Writer::closeFile(int level)
 #ifdef HAS_HDF5
   if (m_file != -1) {
     m_flag = H5F_ACC_RDWR;
+    if (!m_ok) // don't leave an incomplete level in the file
+      H5Ldelete(m_file,std::to_string(level).c_str(),H5P_DEFAULT);
     m_ok &= HDF5Base::closeFile();
   }
   std::swap(ok,m_ok);
-- 
2.43.0


From 67518b406c5d977a93c6da4096047f1a7676450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 019/114] fix: an unreadable result file is not taken as empty
 when appending to it

---
 src/Utility/DataExporter.C |  8 ++++++--
 src/Utility/HDF5Writer.C   | 19 +++++++++++++++----
 src/Utility/HDF5Writer.h   |  1 +
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/Utility/DataExporter.C b/src/Utility/DataExporter.C
index f48a5a2..8e05cc1 100644
--- a/src/Utility/DataExporter.C
+++ b/src/Utility/DataExporter.C
@@ -106,11 +106,15 @@ bool DataExporter::dumpTimeLevel (const TimeStep* tp, bool geoUpd, bool doLog)
   else if (m_level < 0)
   {
     geoUpd = true; // always write geometry basis on first time level
+    int level = m_level;
     for (DataWriter* writer : m_writers) {
       int lastLevel = writer->getLastTimeLevel();
-      if (lastLevel < m_level || m_level < 0)
-        m_level = lastLevel;
+      if (lastLevel < -1)
+        return false; // the existing file could not be read
+      else if (lastLevel < level || level < 0)
+        level = lastLevel;
     }
+    m_level = level;
   }
 
   PROFILE1("DataExporter::dumpTimeLevel");
diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index 5dc5614..c0eccdf 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -20,6 +20,7 @@
 #include <sstream>
 
 #ifdef HAS_HDF5
+#include <cerrno>
 #include <numeric>
 #include <sys/stat.h>
 #include <sys/statvfs.h>
@@ -64,13 +65,23 @@ int HDF5Writer::getLastTimeLevel ()
   hid_t acc_tpl = H5P_DEFAULT;
 #endif
 
-  if (hid_t fid = H5Fopen(m_name.c_str(),m_flag,acc_tpl); fid >= 0) {
-    while (checkGroupExistence(fid, ("/" + std::to_string(result)).c_str()))
+  struct stat temp;
+  if (stat(m_name.c_str(),&temp) != 0 && errno == ENOENT)
+    return -1;
+
+  hid_t fid = H5Fopen(m_name.c_str(),m_flag,acc_tpl);
+  htri_t found = fid < 0 ? -1 : 1;
+  while (found > 0) {
+    found = H5Lexists(fid, ("/" + std::to_string(result)).c_str(), H5P_DEFAULT);
+    if (found > 0)
       result++;
+  }
+  if (fid >= 0)
     H5Fclose(fid);
+  if (found < 0) {
+    std::cerr <<" *** HDF5Writer: Failed to read "<< m_name << std::endl;
+    return -2;
   }
-  else
-    std::cerr <<" *** HDF5Writer: Failed to open "<< m_name << std::endl;
 #endif
   return result-1;
 }
diff --git a/src/Utility/HDF5Writer.h b/src/Utility/HDF5Writer.h
index 33f9b13..c18017c 100644
--- a/src/Utility/HDF5Writer.h
+++ b/src/Utility/HDF5Writer.h
@@ -40,6 +40,7 @@ public:
   virtual ~HDF5Writer() {}
 
   //! \brief Returns the last time level stored in the HDF5 file.
+  //! \return -1 if the file contains no time levels, -2 if it can not be read
   virtual int getLastTimeLevel();
 
   //! \brief Opens the file at a given time level.
-- 
2.43.0


From 4feff40f286fd77775d02c26052e0fd3b7a2ca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 020/114] fix: copy the pivots of a factored dense matrix, and
 drop them on initAssembly

A copy of a factored DenseMatrix was without its pivotation vector, so that
solving with it factored the factors and gave a wrong solution. And a matrix
that was initialized for a new assembly kept its old pivotation vector,
such that the new matrix was never factored.
---
 src/LinAlg/DenseMatrix.C | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/DenseMatrix.C b/src/LinAlg/DenseMatrix.C
index 76ec505..194aa41 100644
--- a/src/LinAlg/DenseMatrix.C
+++ b/src/LinAlg/DenseMatrix.C
@@ -15,6 +15,7 @@
 #include "SparseMatrix.h"
 #include "SAM.h"
 #include "LAPack.h"
+#include <algorithm>
 #include <fstream>
 #include <sstream>
 
@@ -52,7 +53,12 @@ DenseMatrix::DenseMatrix (const DenseMatrix& A)
   ipiv = nullptr;
   symm = A.symm;
   if (A.ipiv)
-    std::cerr <<"DenseMatrix constructor: Copying factored matrix"<< std::endl;
+  {
+    // The matrix is factored, so the pivotation vector is needed also
+    const size_t n = symm ? 1 : myMat.rows();
+    ipiv = new int[n];
+    std::copy(A.ipiv,A.ipiv+n,ipiv);
+  }
 }
 
 
@@ -79,6 +85,10 @@ DenseMatrix::DenseMatrix (const Matrix& A, bool s) : myMat(A)
 void DenseMatrix::initAssembly (const SAM& sam, char)
 {
   myMat.resize(sam.neq,sam.neq,true);
+
+  // Delete pivotation vector of old factorization, if any
+  delete[] ipiv;
+  ipiv = nullptr;
 }
 
 
-- 
2.43.0


From c774fa9cfb8f4be9ebc35c5b14dffda7bfe4e275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 021/114] fix: a dense matrix that failed to factor must not
 solve the next time

After a failed factorization the pivotation vector was left allocated, so that
the next solve used the incomplete factors and reported success.
---
 src/LinAlg/DenseMatrix.C | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LinAlg/DenseMatrix.C b/src/LinAlg/DenseMatrix.C
index 194aa41..298bdee 100644
--- a/src/LinAlg/DenseMatrix.C
+++ b/src/LinAlg/DenseMatrix.C
@@ -582,6 +582,10 @@ bool DenseMatrix::solve (Real* B, size_t nrhs, Real* rcond)
   else
     std::cerr <<"Singular stiffness matrix, pivot "<< info
 	      <<" (of total "<< n <<") is zero."<< std::endl;
+
+  // The matrix content is overwritten by an incomplete factorization which must
+  // not be used. Clear it, such that solving again without reassembly also fails.
+  if (info > 0) this->init();
 #else
   std::cerr << dsolv <<" not available - built without LAPack/BLAS"<< std::endl;
 #endif
-- 
2.43.0


From f7bac2c2a03fdf05ad7d8383031d05c1d9e1d15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 022/114] fix: diagonal matrix solves for all right-hand-side
 vectors

---
 src/LinAlg/DiagMatrix.C | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/DiagMatrix.C b/src/LinAlg/DiagMatrix.C
index 3179d41..d6ed396 100644
--- a/src/LinAlg/DiagMatrix.C
+++ b/src/LinAlg/DiagMatrix.C
@@ -203,11 +203,15 @@ bool DiagMatrix::solve (SystemVector& B, Real*)
   if (myMat.empty()) return true; // Nothing to solve
 
   int nzero = 0;
-  Real* b = B.getPtr();
   for (Real pivot : myMat)
     if (fabs(pivot) < 1.0e-16)
       ++nzero;
-    else
+
+  // Solve for all right-hand-side vectors in B
+  Real* b = B.getPtr();
+  const size_t nrhs = nzero > 0 ? 0 : B.dim() / myMat.size();
+  for (size_t i = 0; i < nrhs; i++)
+    for (Real pivot : myMat)
       *(b++) /= pivot;
 
   if (nzero == 0) return true;
-- 
2.43.0


From 1c32ba417856c0d5806ed1841bacad445f9a0c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 023/114] fix: product with a UMFPACK matrix whose sparsity
 pattern is locked

The column-oriented 0-based storage was read as row-oriented and 1-based.
---
 src/LinAlg/SparseMatrix.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index 3806803..d94444b 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -588,7 +588,8 @@ bool SparseMatrix::multiply (const SystemVector& B, SystemVector& C) const
   if (editable)
     for (const ValueMap::value_type& val : elem)
       (*Cptr)(val.first.first) += val.second*(*Bptr)(val.first.second);
-  else if (solver == SUPERLU) {
+  else if (solver == SUPERLU || solver == UMFPACK) {
+    // Column-oriented format with 0-based indices
     double* y = Cptr->ptr();
 #pragma omp parallel for schedule(static) reduction(+:y[0:nrow])
       for (size_t j = 1; j <= ncol; j++)
-- 
2.43.0


From f9ccf35f1b3c44bf75d099ded01fba3696895079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 024/114] fix: survive that SuperLU runs out of memory

The factors do not exist if SuperLU could not allocate them, and must then not
be destroyed, neither by the next factorization nor by the destructor. And the
matrix is factored only if SuperLU succeeded.
---
 src/LinAlg/SparseMatrix.C | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index d94444b..8cba086 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -115,8 +115,7 @@ struct SuperLUdata
   ~SuperLUdata()
   {
     Destroy_SuperMatrix_Store(&A);
-    Destroy_SuperNode_Matrix(&L);
-    Destroy_CompCol_Matrix(&U);
+    this->freeFactors();
     delete[] R;
     delete[] C;
     delete[] perm_r;
@@ -131,6 +130,15 @@ struct SuperLUdata
 #endif
     delete opts;
   }
+
+  //! \brief Frees the matrix factors, if they exist.
+  //! \details They don't if SuperLU ran out of memory while creating them.
+  void freeFactors()
+  {
+    if (L.Store) Destroy_SuperNode_Matrix(&L);
+    if (U.Store) Destroy_CompCol_Matrix(&U);
+    L.Store = U.Store = nullptr;
+  }
 #endif
 };
 
@@ -1064,8 +1072,7 @@ bool SparseMatrix::solveSLU (Vector& B)
   }
   else {
     Destroy_SuperMatrix_Store(&slu->A);
-    Destroy_SuperNode_Matrix(&slu->L);
-    Destroy_CompCol_Matrix(&slu->U);
+    slu->freeFactors();
     dCreate_CompCol_Matrix(&slu->A, nrow, ncol, this->size(),
                            A.ptr(), JA.data(), IA.data(),
                            SLU_NC, SLU_D, SLU_GE);
@@ -1102,8 +1109,7 @@ bool SparseMatrix::solveSLU (Vector& B)
     slu->opts->Fact = FACTORED; // Re-use previous factorization
   else {
     Destroy_SuperMatrix_Store(&slu->A);
-    Destroy_SuperNode_Matrix(&slu->L);
-    Destroy_CompCol_Matrix(&slu->U);
+    slu->freeFactors();
     dCreate_CompCol_Matrix(&slu->A, nrow, ncol, this->size(),
                            A.ptr(), JA.data(), IA.data(),
                            SLU_NC, SLU_D, SLU_GE);
@@ -1217,8 +1223,7 @@ bool SparseMatrix::solveSLUx (Vector& B, Real* rcond)
     slu->opts->Fact = FACTORED; // Re-use previous factorization
   else {
     Destroy_SuperMatrix_Store(&slu->A);
-    Destroy_SuperNode_Matrix(&slu->L);
-    Destroy_CompCol_Matrix(&slu->U);
+    slu->freeFactors();
     dCreate_CompCol_Matrix(&slu->A, nrow, ncol, this->size(),
                            A.ptr(), JA.data(), IA.data(),
                            SLU_NC, SLU_D, SLU_GE);
@@ -1285,7 +1290,7 @@ bool SparseMatrix::solveSLUx (Vector& B, Real* rcond)
     return false;
   }
 
-  if (!factored)
+  if (!factored && ierr == 0)
   {
     factored = true;
     if (rcond && slu)
-- 
2.43.0


From d56dbe7288161895f76905aa075379ba45f861fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 025/114] fix: keep the matrix unscaled when SuperLU
 equilibrates it

SuperLU scales the rows and columns of badly scaled matrices in place, so that
copies of the matrix, products with it, and solving again after a failure
used the scaled coefficients.
---
 src/LinAlg/SparseMatrix.C | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index 8cba086..2a611e0 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -1260,6 +1260,21 @@ bool SparseMatrix::solveSLUx (Vector& B, Real* rcond)
 
   B.swap(X);
 
+  if (slu->opts->Fact != FACTORED)
+  {
+    // Undo the equilibration of the matrix coefficients, which was done in-place.
+    // The scaling factors are still used together with the matrix factors.
+    const bool rowScaled = slu->equed == 'R' || slu->equed == 'B';
+    const bool colScaled = slu->equed == 'C' || slu->equed == 'B';
+    if (rowScaled || colScaled)
+      for (size_t j = 0; j < ncol; j++)
+        for (int i = IA[j]; i < IA[j+1]; i++)
+        {
+          if (rowScaled) A[i] /= slu->R[JA[i]];
+          if (colScaled) A[i] /= slu->C[j];
+        }
+  }
+
   if (printSLUstat)
   {
     StatPrint(&stat);
-- 
2.43.0


From ba897bba1b87312222b9e82f5eceb5ca1d345cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 026/114] fix: add a constant to the diagonal of a dense
 matrix, not its square

---
 src/LinAlg/DenseMatrix.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/DenseMatrix.C b/src/LinAlg/DenseMatrix.C
index 298bdee..9b1fefb 100644
--- a/src/LinAlg/DenseMatrix.C
+++ b/src/LinAlg/DenseMatrix.C
@@ -505,7 +505,7 @@ bool DenseMatrix::add (Real sigma, int ieq)
   else if (ieq > 0)
     myMat(ieq,ieq) += sigma;
   else
-    cblas_daxpy(myMat.rows(),sigma,&sigma,0,myMat.ptr(),myMat.rows()+1);
+    cblas_daxpy(myMat.rows(),Real(1),&sigma,0,myMat.ptr(),myMat.rows()+1);
 
   return this->flagNonZeroEq(ieq);
 }
-- 
2.43.0


From f8972437662e5cb82c22e7162a9eae080b41bae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:44 +0000
Subject: [PATCH 027/114] fix: static condensation read past the end of its
 equation lists

This happened when the last equation is not retained. And it accepted a matrix
index equal to the number of matrices.
---
 src/ASM/AlgEqSystem.C | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index 797e3eb..e5ffcef 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -355,7 +355,7 @@ bool AlgEqSystem::staticCondensation (Matrix& Ared, Vector& bred,
                                       const IntVec& extNodes, size_t imat,
                                       const char* recmatFile) const
 {
-  if (imat > A.size()) return false;
+  if (imat >= A.size()) return false;
 
   const SparseMatrix* Amat = dynamic_cast<const SparseMatrix*>(A[imat]._A);
   const double*       Rvec = A[imat]._b ? A[imat]._b->getRef() : nullptr;
@@ -397,7 +397,7 @@ bool AlgEqSystem::staticCondensation (Matrix& Ared, Vector& bred,
   Vector    R2(neq2); // External (retained) DOFs
   size_t ieq, ip2, ieq1 = 0, ieq2 = 0;
   for (ieq = ip2 = 0; ieq < neq0; ieq++)
-    if (static_cast<int>(ieq)+1 < meqn2[ip2])
+    if (ip2 == neq2 || static_cast<int>(ieq)+1 < meqn2[ip2])
       R1(++ieq1) = Rvec[ieq];
     else
     {
@@ -550,9 +550,10 @@ bool AlgEqSystem::recoverInternals (const Matrix& Rmat, const IntVec& extNodes,
 
   // Construct the full vector
   Vector x(neq0);
-  int ieq, ip2, ieq1 = 0, ieq2 = 0;
-  for (ieq = ip2 = 0; ieq < neq0; ieq++)
-    if (ieq+1 < meqn2[ip2])
+  int ieq, ieq1 = 0, ieq2 = 0;
+  size_t ip2 = 0;
+  for (ieq = 0; ieq < neq0; ieq++)
+    if (ip2 == neq2 || ieq+1 < meqn2[ip2])
       x[ieq] = x1(++ieq1);
     else
     {
-- 
2.43.0


From 3cb2da59c91400eb5f3ef78ce209334179df806f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:36 +0000
Subject: [PATCH 028/114] fix: report failures when writing the recovery matrix
 file

A recovery file that could not be opened was silently ignored, leaving a file
from an earlier reduction, if any, to be used instead. And failures when
flushing the last part of the file were not detected. Also close the file
if the equation solver fails.
---
 src/ASM/AlgEqSystem.C | 46 +++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index e5ffcef..e077b81 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -413,24 +413,31 @@ bool AlgEqSystem::staticCondensation (Matrix& Ared, Vector& bred,
     return false;
 
   FILE* fd = recmatFile ? fopen(recmatFile,"wb") : nullptr;
+
+  // Lambda function closing the recovery file, if any, before an error return.
+  auto&& failure = [fd](const char* msg = nullptr)
+  {
+    if (fd) fclose(fd);
+    if (msg)
+      std::cerr <<" *** AlgEqSystem::staticCondensation: "<< msg
+                <<" recovery matrix."<< std::endl;
+    return false;
+  };
+
   if (fd)
   {
     IFEM::cout <<"\nWriting recovery matrix "<< recmatFile << std::endl;
-    fprintf(fd,"#IFEM recovery matrix: %zu %zu\n",neq1,1+neq2);
-
-    if (fwrite(R1.ptr(),sizeof(double),neq1,fd) < neq1)
-    {
-      std::cerr <<" *** AlgEqSystem::staticCondensation: Failed to write"
-                <<" recovery matrix."<< std::endl;
-      fclose(fd);
-      return false;
-    }
+    if (fprintf(fd,"#IFEM recovery matrix: %zu %zu\n",neq1,1+neq2) < 0 ||
+        fwrite(R1.ptr(),sizeof(double),neq1,fd) < neq1)
+      return failure("Failed to write");
   }
+  else if (recmatFile)
+    return failure("Failed to open file for");
 
   // Calculate [A21]*([A11]^-1*{R1}) => Rtmp
   StdVector Rtmp;
   if (!Asub[1].multiply(R1,Rtmp))
-    return false;
+    return failure();
 
   // Calculate the reduced right-hand-side vector
   bred = R2 - Rtmp;
@@ -448,26 +455,27 @@ bool AlgEqSystem::staticCondensation (Matrix& Ared, Vector& bred,
 
     // Calculate [A11]^-1*{R1} => R1, reusing the factorization of [A11]
     if (!Asub[0].solve(R1))
-      return false;
+      return failure();
 
     // Calculate [A21]*([A11]^-1*{R1}) => Rtmp
     if (!Asub[1].multiply(R1,Rtmp))
-      return false;
+      return failure();
 
     // Insert {R2}-{Rtmp} into the reduced matrix Ared
     Ared.fillColumn(ieq2,R2-Rtmp);
 
     R1 *= -1.0; // Store the recovery matrix -[A11]^-1*[A12] on file
     if (fd && fwrite(R1.ptr(),sizeof(double),neq1,fd) < neq1)
-    {
-      std::cerr <<" *** AlgEqSystem::staticCondensation: Failed to write"
-                <<" recovery matrix."<< std::endl;
-      fclose(fd);
-      return false;
-    }
+      return failure("Failed to write");
+  }
+
+  if (fd && fclose(fd) != 0)
+  {
+    std::cerr <<" *** AlgEqSystem::staticCondensation: Failed to write"
+              <<" recovery matrix."<< std::endl;
+    return false;
   }
 
-  if (fd) fclose(fd);
   return true;
 }
 
-- 
2.43.0


From 5b5294e65b2455e4aacea07d712fc91fe98ca9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:41 +0000
Subject: [PATCH 029/114] fix: no NaN solution from the line search when there
 is no work along the search direction

---
 src/SIM/NonLinSIM.C | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/SIM/NonLinSIM.C b/src/SIM/NonLinSIM.C
index 4df8f3c..ecf2381 100644
--- a/src/SIM/NonLinSIM.C
+++ b/src/SIM/NonLinSIM.C
@@ -344,9 +344,16 @@ bool NonLinSIM::lineSearch (TimeStep& param)
 {
   if (eta <= 0.0) return true; // No line search
 
+  double s0 = residual.dot(linsol);
+  if (s0 == 0.0)
+  {
+    // No work along the search direction (e.g., zero residual)
+    alpha = alphaO = 1.0;
+    return true;
+  }
+
   model.setMode(SIM::RHS_ONLY,false);
 
-  double s0 = residual.dot(linsol);
   double smin = fabs(s0);
   double cmin = 1.0;
   double ck = 1.0;
-- 
2.43.0


From ce64fc21b0eb302f057716b0c39a9a35fd331c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:41 +0000
Subject: [PATCH 030/114] fix: HHT velocities and accelerations when converging
 in the first iteration of a step

---
 src/SIM/HHTSIM.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SIM/HHTSIM.C b/src/SIM/HHTSIM.C
index 8f53ba4..a1ee966 100644
--- a/src/SIM/HHTSIM.C
+++ b/src/SIM/HHTSIM.C
@@ -208,8 +208,9 @@ bool HHTSIM::correctStep (TimeStep& param, bool converged)
   const unsigned short int iV = 1;
   const unsigned short int iA = 2;
 
-  if (param.iter == 1 && !converged)
+  if (param.iter == (converged ? 0 : 1))
   {
+    // First correction in this time step
     // V_n = v_n^1 = v_{n-1} - V_n
     // A_n = a_n^1 = a_{n-1} - A_n
     solution[pV] = solution[iV].add(solution[pV],-1.0);
-- 
2.43.0


From a16bc4a03689c4094a1938fcb9adae85f215f17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:01 +0000
Subject: [PATCH 031/114] fix: nonlinear solvers in the same process no longer
 share their convergence history

---
 src/SIM/NewmarkSIM.C | 4 ----
 src/SIM/NewmarkSIM.h | 5 +++++
 src/SIM/NonLinSIM.C  | 4 ----
 src/SIM/NonLinSIM.h  | 5 +++++
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/SIM/NewmarkSIM.C b/src/SIM/NewmarkSIM.C
index 073e802..79d1b0e 100644
--- a/src/SIM/NewmarkSIM.C
+++ b/src/SIM/NewmarkSIM.C
@@ -543,10 +543,6 @@ SIM::ConvStatus NewmarkSIM::solveIteration (TimeStep& param)
 
 SIM::ConvStatus NewmarkSIM::checkConvergence (TimeStep& param)
 {
-  static double convTol   = 0.0;
-  static double prevNorm  = 0.0;
-  static int    nIncrease = 0;
-
   double norms[3];
   model.iterationNorms(linsol,residual,norms[0],norms[1],norms[2]);
   double norm = norms[cNorm];
diff --git a/src/SIM/NewmarkSIM.h b/src/SIM/NewmarkSIM.h
index 700e1e6..8eb552c 100644
--- a/src/SIM/NewmarkSIM.h
+++ b/src/SIM/NewmarkSIM.h
@@ -126,6 +126,11 @@ protected:
   bool read_factor;          //!< If \e true, read factorized Newton matrix
   LinAlg::StorageFormat fmt; //!< Factorized Newton matrix storage format
 
+private:
+  double convTol  = 0.0; //!< Convergence tolerance for current step
+  double prevNorm = 0.0; //!< Convergence norm in previous iteration
+  int    nIncrease = 0;  //!< Number of iterations with increasing norm so far
+
 public:
   static const char* inputContext; //!< Input file context for solver parameters
 };
diff --git a/src/SIM/NonLinSIM.C b/src/SIM/NonLinSIM.C
index ecf2381..512477a 100644
--- a/src/SIM/NonLinSIM.C
+++ b/src/SIM/NonLinSIM.C
@@ -420,10 +420,6 @@ SIM::ConvStatus NonLinSIM::checkConvergence (TimeStep& param)
   if (iteNorm <= NONE)
     return CONVERGED; // No iterations, we are solving a linear problem
 
-  static double convTol   = 0.0;
-  static double prevNorm  = 0.0;
-  static int    nIncrease = 0;
-
   ConvStatus status = OK;
   double enorm, resNorm, linsolNorm;
   model.iterationNorms(linsol,residual,enorm,resNorm,linsolNorm);
diff --git a/src/SIM/NonLinSIM.h b/src/SIM/NonLinSIM.h
index 13c01b6..bb7f5a9 100644
--- a/src/SIM/NonLinSIM.h
+++ b/src/SIM/NonLinSIM.h
@@ -133,6 +133,11 @@ protected:
 
   std::map<int,int> slowNodes; //!< Nodes for which slow convergence is detected
 
+private:
+  double convTol  = 0.0; //!< Convergence tolerance for current step
+  double prevNorm = 0.0; //!< Convergence norm in previous iteration
+  int    nIncrease = 0;  //!< Number of iterations with increasing norm so far
+
 public:
   static const char* inputContext; //!< Input file context for solver parameters
 };
-- 
2.43.0


From 02f7ac86cf8dc4bfcf4a7d2fe64e6c0a6dd8e849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:54 +0000
Subject: [PATCH 032/114] fix: restart of the HHT and nonlinear Newmark drivers
 without stored inertia or external forces, and with the reference norm

---
 src/SIM/HHTSIM.C       | 28 ++++++++++++++++++----------
 src/SIM/NewmarkNLSIM.C | 10 +++++++---
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/SIM/HHTSIM.C b/src/SIM/HHTSIM.C
index a1ee966..e2bb133 100644
--- a/src/SIM/HHTSIM.C
+++ b/src/SIM/HHTSIM.C
@@ -282,7 +282,7 @@ void HHTSIM::setSolution (const RealArray& newSol, int idx)
 
 bool HHTSIM::serialize (SerializeMap& data) const
 {
-  if (!this->saveSolution(data,model.getName()))
+  if (!this->NewmarkSIM::serialize(data))
     return false;
 
   if (Finert)
@@ -299,20 +299,28 @@ bool HHTSIM::serialize (SerializeMap& data) const
 
 bool HHTSIM::deSerialize (const SerializeMap& data)
 {
-  if (!this->restoreSolution(data,model.getName()))
+  if (!this->NewmarkSIM::deSerialize(data))
     return false;
 
-  SerializeMap::const_iterator sit = data.find("HHT::Finert");
-  if (sit == data.end()) return false;
+  delete Finert;
+  delete Fext;
+  Finert = Fext = nullptr;
 
-  Finert = new StdVector(model.getNoEquations());
-  SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  // The inertia force exists from the second time step only
+  SerializeMap::const_iterator sit = data.find("HHT::Finert");
+  if (sit != data.end())
+  {
+    Finert = new StdVector(model.getNoEquations());
+    SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  }
 
+  // The external forces exist when some time step has converged only
   sit = data.find("HHT::Fext");
-  if (sit == data.end()) return false;
-
-  Fext = new StdVector(model.getNoEquations());
-  SIMsolution::deSerialize(sit->second,Fext->getPtr(),Fext->dim());
+  if (sit != data.end())
+  {
+    Fext = new StdVector(model.getNoEquations());
+    SIMsolution::deSerialize(sit->second,Fext->getPtr(),Fext->dim());
+  }
 
   return true;
 }
diff --git a/src/SIM/NewmarkNLSIM.C b/src/SIM/NewmarkNLSIM.C
index a8a395b..a2d3f6f 100644
--- a/src/SIM/NewmarkNLSIM.C
+++ b/src/SIM/NewmarkNLSIM.C
@@ -238,7 +238,7 @@ void NewmarkNLSIM::setSolution (const RealArray& newSol, int idx)
 
 bool NewmarkNLSIM::serialize (SerializeMap& data) const
 {
-  if (!this->saveSolution(data,model.getName()))
+  if (!this->NewmarkSIM::serialize(data))
     return false;
 
   if (Finert)
@@ -251,11 +251,15 @@ bool NewmarkNLSIM::serialize (SerializeMap& data) const
 
 bool NewmarkNLSIM::deSerialize (const SerializeMap& data)
 {
-  if (!this->restoreSolution(data,model.getName()))
+  if (!this->NewmarkSIM::deSerialize(data))
     return false;
 
+  delete Finert;
+  Finert = nullptr;
+
+  // The inertia force is stored only when it is used
   SerializeMap::const_iterator sit = data.find("HHT::Finert");
-  if (sit == data.end()) return false;
+  if (sit == data.end()) return true;
 
   Finert = new StdVector(model.getNoEquations());
   SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
-- 
2.43.0


From 2960d8911205cf3f676b7cd8adc21b57b9a8b2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:53 +0000
Subject: [PATCH 033/114] fix: restart of coupled simulators no longer mixes up
 the reference norms and forces of the two

---
 src/SIM/HHTSIM.C       | 12 ++++++------
 src/SIM/MultiStepSIM.C | 20 ++++++++++++++++++--
 src/SIM/MultiStepSIM.h | 12 ++++++++++++
 src/SIM/NewmarkNLSIM.C |  6 +++---
 4 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/SIM/HHTSIM.C b/src/SIM/HHTSIM.C
index e2bb133..105e648 100644
--- a/src/SIM/HHTSIM.C
+++ b/src/SIM/HHTSIM.C
@@ -286,12 +286,12 @@ bool HHTSIM::serialize (SerializeMap& data) const
     return false;
 
   if (Finert)
-    data["HHT::Finert"] = SIMsolution::serialize(Finert->getPtr(),
-                                                 Finert->dim());
+    data[this->serialKey("HHT::Finert")] =
+      SIMsolution::serialize(Finert->getPtr(),Finert->dim());
 
   if (Fext)
-    data["HHT::Fext"]   = SIMsolution::serialize(Fext->getPtr(),
-                                                 Fext->dim());
+    data[this->serialKey("HHT::Fext")] =
+      SIMsolution::serialize(Fext->getPtr(),Fext->dim());
 
   return true;
 }
@@ -307,7 +307,7 @@ bool HHTSIM::deSerialize (const SerializeMap& data)
   Finert = Fext = nullptr;
 
   // The inertia force exists from the second time step only
-  SerializeMap::const_iterator sit = data.find("HHT::Finert");
+  SerializeMap::const_iterator sit = this->findSerial(data,"HHT::Finert");
   if (sit != data.end())
   {
     Finert = new StdVector(model.getNoEquations());
@@ -315,7 +315,7 @@ bool HHTSIM::deSerialize (const SerializeMap& data)
   }
 
   // The external forces exist when some time step has converged only
-  sit = data.find("HHT::Fext");
+  sit = this->findSerial(data,"HHT::Fext");
   if (sit != data.end())
   {
     Fext = new StdVector(model.getNoEquations());
diff --git a/src/SIM/MultiStepSIM.C b/src/SIM/MultiStepSIM.C
index 3888a8d..adfea9e 100644
--- a/src/SIM/MultiStepSIM.C
+++ b/src/SIM/MultiStepSIM.C
@@ -214,9 +214,24 @@ bool MultiStepSIM::saveStep (int iStep, int& rBlock, const char* vecName)
 }
 
 
+std::string MultiStepSIM::serialKey (const char* name) const
+{
+  return model.getName() + "::" + name;
+}
+
+
+SIMsolution::SerializeMap::const_iterator
+MultiStepSIM::findSerial (const SerializeMap& data, const char* name) const
+{
+  SerializeMap::const_iterator sit = data.find(this->serialKey(name));
+  return sit == data.end() ? data.find(name) : sit;
+}
+
+
 bool MultiStepSIM::serialize (SerializeMap& data) const
 {
-  data["MultiStepSIM::refNorm"] = SIMsolution::serialize(&refNorm,1);
+  data[this->serialKey("MultiStepSIM::refNorm")] =
+    SIMsolution::serialize(&refNorm,1);
 
   return this->saveSolution(data,model.getName());
 }
@@ -224,7 +239,8 @@ bool MultiStepSIM::serialize (SerializeMap& data) const
 
 bool MultiStepSIM::deSerialize (const SerializeMap& data)
 {
-  SerializeMap::const_iterator sit = data.find("MultiStepSIM::refNorm");
+  SerializeMap::const_iterator sit = this->findSerial(data,
+                                                      "MultiStepSIM::refNorm");
   if (sit != data.end())
     SIMsolution::deSerialize(sit->second,&refNorm,1);
 
diff --git a/src/SIM/MultiStepSIM.h b/src/SIM/MultiStepSIM.h
index 6c83dfd..6673b6e 100644
--- a/src/SIM/MultiStepSIM.h
+++ b/src/SIM/MultiStepSIM.h
@@ -140,6 +140,18 @@ public:
   //! \brief Restores the solution from a serialized state in case of restart.
   bool checkForRestart();
 
+protected:
+  //! \brief Returns the key for a serialized quantity of this simulator.
+  //! \param[in] name Name of the quantity
+  std::string serialKey(const char* name) const;
+  //! \brief Finds a serialized quantity of this simulator.
+  //! \param[in] data Container for serialized data
+  //! \param[in] name Name of the quantity
+  SerializeMap::const_iterator findSerial(const SerializeMap& data,
+                                          const char* name) const;
+
+public:
+
   //! \brief Dumps the primary solution for inspection.
   //! \param[in] iStep Time/load step identifier
   //! \param[in] time Current time/load parameter
diff --git a/src/SIM/NewmarkNLSIM.C b/src/SIM/NewmarkNLSIM.C
index a2d3f6f..6b6c27c 100644
--- a/src/SIM/NewmarkNLSIM.C
+++ b/src/SIM/NewmarkNLSIM.C
@@ -242,8 +242,8 @@ bool NewmarkNLSIM::serialize (SerializeMap& data) const
     return false;
 
   if (Finert)
-    data["HHT::Finert"] = SIMsolution::serialize(Finert->getPtr(),
-                                                 Finert->dim());
+    data[this->serialKey("HHT::Finert")] =
+      SIMsolution::serialize(Finert->getPtr(),Finert->dim());
 
   return true;
 }
@@ -258,7 +258,7 @@ bool NewmarkNLSIM::deSerialize (const SerializeMap& data)
   Finert = nullptr;
 
   // The inertia force is stored only when it is used
-  SerializeMap::const_iterator sit = data.find("HHT::Finert");
+  SerializeMap::const_iterator sit = this->findSerial(data,"HHT::Finert");
   if (sit == data.end()) return true;
 
   Finert = new StdVector(model.getNoEquations());
-- 
2.43.0


From 0a57cdd52d9f067e969367b11dff25cab4f3a1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:15 +0000
Subject: [PATCH 034/114] fix: assemble the coefficient matrix in the first
 step after a restart also when it is constant

---
 src/SIM/MultiStepSIM.C | 3 +++
 src/SIM/MultiStepSIM.h | 2 ++
 src/SIM/NewmarkSIM.C   | 6 ++++--
 src/SIM/NonLinSIM.C    | 3 ++-
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/SIM/MultiStepSIM.C b/src/SIM/MultiStepSIM.C
index adfea9e..65cfb7b 100644
--- a/src/SIM/MultiStepSIM.C
+++ b/src/SIM/MultiStepSIM.C
@@ -35,6 +35,7 @@ MultiStepSIM::MultiStepSIM (SIMbase& sim)
   subiter = NONE;
   nRHSvec = 1;
   rotUpd  = false;
+  restarted = false;
   saveBCs = true;
 
   geoBlk = nBlock = lastSt = 0;
@@ -244,6 +245,8 @@ bool MultiStepSIM::deSerialize (const SerializeMap& data)
   if (sit != data.end())
     SIMsolution::deSerialize(sit->second,&refNorm,1);
 
+  restarted = true; // the coefficient matrix must be assembled in next step
+
   return this->restoreSolution(data,model.getName());
 }
 
diff --git a/src/SIM/MultiStepSIM.h b/src/SIM/MultiStepSIM.h
index 6673b6e..28ec9a7 100644
--- a/src/SIM/MultiStepSIM.h
+++ b/src/SIM/MultiStepSIM.h
@@ -225,6 +225,8 @@ protected:
   size_t nRHSvec; //!< Number of right-hand-side vectors to assemble
   char   rotUpd;  //!< Option for how to update of nodal rotations
 
+  bool restarted; //!< If \e true, no coefficient matrix exists after restart
+
   int geoBlk; //!< Running VTF geometry block counter
   int nBlock; //!< Running VTF result block counter
 
diff --git a/src/SIM/NewmarkSIM.C b/src/SIM/NewmarkSIM.C
index 79d1b0e..d2db3f7 100644
--- a/src/SIM/NewmarkSIM.C
+++ b/src/SIM/NewmarkSIM.C
@@ -401,11 +401,12 @@ SIM::ConvStatus NewmarkSIM::solveStep (TimeStep& param, SIM::SolutionMode,
   if (subiter&FIRST && !this->predictStep(param))
     return SIM::FAILURE;
 
-  bool newTangent = (param.time.first || nupdat > 0) && !read_factor;
+  bool noTangent = param.time.first || restarted;
+  bool newTangent = (noTangent || nupdat > 0) && !read_factor;
   if (!model.setMode(newTangent ? SIM::DYNAMIC : SIM::RHS_ONLY, false))
     return SIM::FAILURE;
 
-  if (param.time.first && read_factor)
+  if (noTangent && read_factor)
   {
     PROFILE1("Read factorized Nmat");
     IFEM::cout <<"   * Reading factorized Newton matrix from file "
@@ -419,6 +420,7 @@ SIM::ConvStatus NewmarkSIM::solveStep (TimeStep& param, SIM::SolutionMode,
   if (!model.assembleSystem(param.time,solution,newTangent))
     return SIM::FAILURE;
 
+  restarted = false;
   this->finalizeRHSvector(!param.time.first);
 
   if (!model.extractLoadVec(residual))
diff --git a/src/SIM/NonLinSIM.C b/src/SIM/NonLinSIM.C
index 512477a..076cd05 100644
--- a/src/SIM/NonLinSIM.C
+++ b/src/SIM/NonLinSIM.C
@@ -229,12 +229,13 @@ SIM::ConvStatus NonLinSIM::solveStep (TimeStep& param,
     return FAILURE;
 
   bool poorConvg = false;
-  bool newTangent = param.time.first || iteNorm != NONE;
+  bool newTangent = param.time.first || restarted || iteNorm != NONE;
   model.setMode(newTangent ? mode : RHS_ONLY, false);
   model.setQuadratureRule(opt.nGauss[0],true);
   if (!this->assembleSystem(param.time,solution,newTangent))
     return model.getProblem()->diverged() ? DIVERGED : FAILURE;
 
+  restarted = false;
   if (iteNorm > NONE)
   {
     if (!model.extractLoadVec(residual))
-- 
2.43.0


From d3b445c569d4e4e4b9e912436f5927b3c230e5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:49 +0000
Subject: [PATCH 035/114] fix: no stale convergence data or NaN norm in coupled
 iterations of a model without load

---
 src/SIM/NewmarkSIM.C | 11 +++++++++--
 src/SIM/NonLinSIM.C  | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/SIM/NewmarkSIM.C b/src/SIM/NewmarkSIM.C
index d2db3f7..d420c96 100644
--- a/src/SIM/NewmarkSIM.C
+++ b/src/SIM/NewmarkSIM.C
@@ -552,7 +552,14 @@ SIM::ConvStatus NewmarkSIM::checkConvergence (TimeStep& param)
   if (param.iter == 0)
   {
     if (norms[2] == 0.0)
-      return SIM::CONVERGED; // No load on this step
+    {
+      // No load on this step, but in a coupled simulation
+      // there may still be more iterations to come
+      convTol = refNorm*rTol > aTol ? rTol : aTol;
+      prevNorm = 0.0;
+      nIncrease = 0;
+      return SIM::CONVERGED;
+    }
 
     if ((subiter&FIRST && refNopt == ALL) || fabs(norm) > refNorm)
       refNorm = fabs(norm);
@@ -571,7 +578,7 @@ SIM::ConvStatus NewmarkSIM::checkConvergence (TimeStep& param)
     prevNorm = norm;
     nIncrease = 0;
   }
-  else
+  else if (refNorm > 0.0)
     norm /= refNorm;
 
   if (msgLevel > 0)
diff --git a/src/SIM/NonLinSIM.C b/src/SIM/NonLinSIM.C
index 076cd05..e0de41b 100644
--- a/src/SIM/NonLinSIM.C
+++ b/src/SIM/NonLinSIM.C
@@ -430,7 +430,14 @@ SIM::ConvStatus NonLinSIM::checkConvergence (TimeStep& param)
   if (param.iter == 0)
   {
     if (linsolNorm == 0.0)
-      return CONVERGED; // No load on this step
+    {
+      // No load on this step, but in a coupled simulation
+      // there may still be more iterations to come
+      convTol = refNorm*rTol > aTol ? rTol : aTol;
+      prevNorm = 0.0;
+      nIncrease = 0;
+      return CONVERGED;
+    }
 
     if ((subiter&FIRST && refNopt == ALL) || fabs(norm) > refNorm)
       refNorm = fabs(norm);
@@ -447,7 +454,7 @@ SIM::ConvStatus NonLinSIM::checkConvergence (TimeStep& param)
 
     nIncrease = 0;
   }
-  else
+  else if (refNorm > 0.0)
     norm /= refNorm;
 
   // Check for slow convergence
-- 
2.43.0


From 6b23f8ee3c434662fd559fb41e0f68b4b988dfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 036/114] fix: no NaN relaxation factor when the Aitken
 residual of a coupled simulation does not change

---
 Apps/Utils/SIMCoupledSI.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Apps/Utils/SIMCoupledSI.h b/Apps/Utils/SIMCoupledSI.h
index 4181616..fe42c86 100644
--- a/Apps/Utils/SIMCoupledSI.h
+++ b/Apps/Utils/SIMCoupledSI.h
@@ -94,7 +94,9 @@ public:
           if (aitken) {
             Vector r1 = this->getAitkenResidual();
             r1 -= prevRes;
-            omega *= -prevRes.dot(r1) / r1.dot(r1);
+            double r1r1 = r1.dot(r1);
+            if (r1r1 > 0.0) // Keep the current factor if no residual change
+              omega *= -prevRes.dot(r1) / r1r1;
             if (fabs(omega) < 1e-6) {
               std::cerr <<"\n  ** Relaxation weight "<< omega <<" too small,"
                         <<" resetting to default "<< omega0 << std::endl;
-- 
2.43.0


From 199e38524f6e64684eed7ba100b17f0f64d2e73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 037/114] fix: data race when threads flag equations with
 non-zero contributions

The flags were packed into a std::vector<bool>, such that threads assembling
contributions to different equations modified the same word, and could lose
each other's flags (resulting in a 1.0e9 on the diagonal of these equations).
---
 src/LinAlg/SystemMatrix.C | 7 ++++++-
 src/LinAlg/SystemMatrix.h | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/SystemMatrix.C b/src/LinAlg/SystemMatrix.C
index 20f1ea1..ae6703c 100644
--- a/src/LinAlg/SystemMatrix.C
+++ b/src/LinAlg/SystemMatrix.C
@@ -199,7 +199,12 @@ bool SystemMatrix::flagNonZeroEq (int ieq)
 bool SystemMatrix::flagNonZeroEqs (const SAM& sam, const IntVec& meq)
 {
   if (nonZeroEqs.size() == 1)
-    nonZeroEqs.front() = true;
+  {
+    // All threads are using the same flag
+    char& nonZero = nonZeroEqs.front();
+#pragma omp atomic write
+    nonZero = true;
+  }
   else
   {
     for (int ieq : meq)
diff --git a/src/LinAlg/SystemMatrix.h b/src/LinAlg/SystemMatrix.h
index d73439f..b503f42 100644
--- a/src/LinAlg/SystemMatrix.h
+++ b/src/LinAlg/SystemMatrix.h
@@ -384,7 +384,10 @@ protected:
   }
 
 private:
-  std::vector<bool> nonZeroEqs; //!< Flags equations with non-zero contributions
+  //! \brief Flags equations with non-zero contributions.
+  //! \details Not a \a bool vector, since the threads assembling contributions
+  //! to different equations then would modify the same memory location.
+  std::vector<char> nonZeroEqs;
 };
 
 #endif
-- 
2.43.0


From 2b3018dcd65632e4134740f16bf4fb8ae516fc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 038/114] fix: reaction forces of elements with several
 prescribed dofs

The terms from the prescribed values were overwritten instead of accumulated,
such that only the last prescribed dof of the element contributed.
---
 src/LinAlg/SAM.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/SAM.C b/src/LinAlg/SAM.C
index 53f2cac..96b51a5 100644
--- a/src/LinAlg/SAM.C
+++ b/src/LinAlg/SAM.C
@@ -455,7 +455,7 @@ bool SAM::assembleSystem (SystemMatrix& sysK, SystemVector& sysRHS,
 	if (meen[i-1] < 1)
 	{
 	  eS.resize(eK.rows());
-	  eS(i) = -c0*eK(i,j);
+	  eS(i) -= c0*eK(i,j);
 	}
     }
 
@@ -503,7 +503,7 @@ bool SAM::assembleSystem (SystemVector& sysRHS,
       if (reactionForces && ieq < 1)
       {
         eS.resize(eK.rows());
-        eS(i) = -c0*eK(i,j);
+        eS(i) -= c0*eK(i,j);
       }
     }
   }
-- 
2.43.0


From 27dca7d3cab4c7fb3f821352c48b98018f9156b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:22 +0000
Subject: [PATCH 039/114] fix: sparsity pattern of a pre-assembled matrix when
 its solver has no pre-computed format

---
 src/LinAlg/SparseMatrix.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index 2a611e0..94c3d1c 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -749,7 +749,9 @@ void SparseMatrix::preAssemble (const SAM& sam, bool delayLocking)
   // If we are not locking the sparsity pattern yet, the index pair map over
   // the non-zero matrix elements needs to be initialized before the assembly.
   // This is used when SAM::getDofCouplings() does not return all connectivities
-  if (delayLocking) // that will exist in the final matrix.
+  // that will exist in the final matrix, and for the solvers whose optimised
+  // storage format is derived from the index pair map.
+  if (delayLocking || (solver != SUPERLU && solver != UMFPACK))
     for (size_t i = 0; i < dofc.size(); i++)
       for (int j : dofc[i])
         (*this)(i+1,j) = 0.0;
-- 
2.43.0


From dab676ba3502fcdb5ab2512dd0c6921394910d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 040/114] fix: adding the right-hand-sides and reactions of
 another equation system

---
 src/ASM/AlgEqSystem.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index e077b81..73785a2 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -136,13 +136,13 @@ AlgEqSystem& AlgEqSystem::add (const AlgEqSystem& that)
   for (i = 0; i < A.size() && i < that.A.size(); i++)
     A[i]._A->add(*that.A[i]._A);
 
-  for (i = 0; i < b.size() && i < that.A.size(); i++)
+  for (i = 0; i < b.size() && i < that.b.size(); i++)
     b[i]->add(*that.b[i]);
 
   for (i = 0; i < c.size() && i < that.c.size(); i++)
     c[i] += that.c[i];
 
-  for (i = 0; i < b.size() && i < that.R.size(); i++)
+  for (i = 0; i < R.size() && i < that.R.size(); i++)
     R[i] += that.R[i];
 
   return *this;
-- 
2.43.0


From c7c2d9b4228f2122ebcc88c12d36024e556098b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 041/114] fix: calculating thread groups again for an object
 that already has some

---
 src/Utility/ThreadGroups.C | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/Utility/ThreadGroups.C b/src/Utility/ThreadGroups.C
index 79de268..b6b9707 100644
--- a/src/Utility/ThreadGroups.C
+++ b/src/Utility/ThreadGroups.C
@@ -56,7 +56,7 @@ void ThreadGroups::oneGroup (size_t nel, const IntVec& elms)
   if (elms.empty())
     this->oneGroup(nel);
   else {
-    tg[0].resize(1, elms.front() >= 0 ? elms : IntVec{});
+    tg[0].assign(1, elms.front() >= 0 ? elms : IntVec{});
     tg[1].resize(0);
   }
 }
@@ -67,7 +67,7 @@ void ThreadGroups::oneStripe (size_t nel)
   tg[0].resize(nel);
   tg[1].resize(0);
   for (size_t iel = 0; iel < nel; iel++)
-    tg[0][iel].resize(1,iel);
+    tg[0][iel].assign(1,iel);
 }
 
 
@@ -76,11 +76,11 @@ void ThreadGroups::oneStripe (size_t nel, const IntVec& elms)
   if (elms.empty())
     this->oneStripe(nel);
   else {
-    tg[0].resize(elms.size());
+    tg[0].assign(elms.size(),IntVec());
     tg[1].resize(0);
     if (elms.front() >= 0)
       for (size_t iel = 0; iel < elms.size(); ++iel)
-        tg[0][iel].resize(1,elms[iel]);
+        tg[0][iel].assign(1,elms[iel]);
   }
 }
 
@@ -163,7 +163,7 @@ void ThreadGroups::calcGroups (const BoolVec& el1, const BoolVec& el2,
     }
 
     for (i = 0; i < 2; ++i) { // loop over groups
-      tg[i].resize(threads);
+      tg[i].assign(threads,IntVec());
       for (int t = 0; t < threads; ++t) { // loop over threads
         int maxx = stripDir == U ? stripsizes[i][t] : nel1;
         int maxy = stripDir == V ? stripsizes[i][t] : nel2;
@@ -233,7 +233,7 @@ void ThreadGroups::calcGroups (int nel1, int nel2, int minsize)
     }
 
     for (i = 0; i < 2; ++i) { // loop over groups
-      tg[i].resize(threads);
+      tg[i].assign(threads,IntVec());
       for (int t = 0; t < threads; ++t) { // loop over threads
         int maxx = stripDir == U ? stripsizes[i][t] : nel1;
         int maxy = stripDir == V ? stripsizes[i][t] : nel2;
@@ -330,7 +330,7 @@ void ThreadGroups::calcGroups (const BoolVec& el1, const BoolVec& el2,
     }
 
     for (i = 0; i < 2; ++i) { // loop over groups
-      tg[i].resize(threads);
+      tg[i].assign(threads,IntVec());
       for (int t = 0; t < threads; ++t) { // loop over threads
         int maxx = stripDir == U ? stripsizes[i][t] : nel1;
         int maxy = stripDir == V ? stripsizes[i][t] : nel2;
@@ -403,7 +403,7 @@ void ThreadGroups::calcGroups (int nel1, int nel2, int nel3, int minsize)
     }
 
     for (i = 0; i < 2; ++i) { // loop over groups
-      tg[i].resize(threads);
+      tg[i].assign(threads,IntVec());
       for (int t = 0; t < threads; ++t) { // loop over threads
         int maxx = stripDir == U ? stripsizes[i][t] : nel1;
         int maxy = stripDir == V ? stripsizes[i][t] : nel2;
@@ -489,7 +489,7 @@ void ThreadGroups::applyMap (const IntVec& map)
 
 ThreadGroups ThreadGroups::filter (const IntVec& elmList) const
 {
-  ThreadGroups filtered;
+  ThreadGroups filtered(stripDir);
   const ThreadGroups& group = *this;
   for (size_t i = 0; i < 2; ++i) {
     filtered[i].resize(group[i].size());
-- 
2.43.0


From 1a66ee62ae94d9820c32033ab426295f2ccb5f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:44 +0000
Subject: [PATCH 042/114] fix: count expression evaluation errors atomically

Expression functions may be evaluated by several threads simultaneously.
---
 src/Utility/ExprFunctions.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Utility/ExprFunctions.C b/src/Utility/ExprFunctions.C
index 2dcf923..224b6ff 100644
--- a/src/Utility/ExprFunctions.C
+++ b/src/Utility/ExprFunctions.C
@@ -91,6 +91,7 @@ void ExprException (const ExprEval::Exception& exc, const char* task,
     std::cerr <<": Unknown exception";
   }
   std::cerr << std::endl;
+#pragma omp atomic
   EvalFuncScalar<Real>::numError++;
 }
 
-- 
2.43.0


From 0452cbc4580519b5c288250f9a3db72b634a0652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:44 +0000
Subject: [PATCH 043/114] fix: set parameters also in the derivative
 expressions

They were left unset in the expressions for the derivatives of a function,
which therefore were evaluated with zero parameter values.
---
 src/Utility/ExprFunctions.C | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Utility/ExprFunctions.C b/src/Utility/ExprFunctions.C
index 224b6ff..3ba613d 100644
--- a/src/Utility/ExprFunctions.C
+++ b/src/Utility/ExprFunctions.C
@@ -595,6 +595,12 @@ void EvalFuncSpatial<Scalar>::setParam (const std::string& name, Real value)
 #endif
     for (std::unique_ptr<ValueList>& v1 : v)
       setVal(*v1);
+
+  // The derivative expressions may depend on the same parameter
+  for (std::unique_ptr<FuncType>& func : derivative1)
+    if (func) func->setParam(name,value);
+  for (std::unique_ptr<FuncType>& func : derivative2)
+    if (func) func->setParam(name,value);
 }
 
 
-- 
2.43.0


From 079bc15c5a449a78dba192b0f707af7254c31dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:44 +0000
Subject: [PATCH 044/114] fix: catch exceptions when evaluating derivatives by
 automatic differentiation

A failing evaluation, such as a division by zero, now gives an error message and
zero derivatives as for the function value, instead of terminating the program.
---
 src/Utility/ExprFunctions.C | 106 +++++++++++++++++++++++-------------
 1 file changed, 67 insertions(+), 39 deletions(-)

diff --git a/src/Utility/ExprFunctions.C b/src/Utility/ExprFunctions.C
index 3ba613d..0ce762b 100644
--- a/src/Utility/ExprFunctions.C
+++ b/src/Utility/ExprFunctions.C
@@ -469,15 +469,22 @@ Real EvalFuncSpatial<autodiff::var>::deriv (const Vec3& X, int dir) const
   if (i >= arg.size())
     return Real(0);
 
-  const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
-  *arg[i].x = X.x;
-  *arg[i].y = X.y;
-  *arg[i].z = X.z;
-  *arg[i].t = Xt ? Xt->t : Real(0);
+  try {
+    const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
+    *arg[i].x = X.x;
+    *arg[i].y = X.y;
+    *arg[i].z = X.z;
+    *arg[i].t = Xt ? Xt->t : Real(0);
+
+    // Evaluate spatial derivative using auto-diff
+    return derivativesx(expr[i]->Evaluate(),
+                        autodiff::wrt(arg[i].get(dir)))[0].expr->val;
+  }
+  catch (ExprEval::Exception& e) {
+    ExprException(e,"evaluating expression");
+  }
 
-  // Evaluate spatial derivative using auto-diff
-  return derivativesx(expr[i]->Evaluate(),
-                      autodiff::wrt(arg[i].get(dir)))[0].expr->val;
+  return Real(0);
 }
 
 
@@ -506,15 +513,22 @@ Real EvalFuncSpatial<autodiff::var>::dderiv (const Vec3& X, int d1, int d2) cons
   if (i >= arg.size())
     return Real(0);
 
-  const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
-  *arg[i].x = X.x;
-  *arg[i].y = X.y;
-  *arg[i].z = X.z;
-  *arg[i].t = Xt ? Xt->t : Real(0);
+  try {
+    const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
+    *arg[i].x = X.x;
+    *arg[i].y = X.y;
+    *arg[i].z = X.z;
+    *arg[i].t = Xt ? Xt->t : Real(0);
+
+    return derivativesx(derivativesx(expr[i]->Evaluate(),
+                                     autodiff::wrt(arg[i].get(d1)))[0],
+                                     autodiff::wrt(arg[i].get(d2)))[0].expr->val;
+  }
+  catch (ExprEval::Exception& e) {
+    ExprException(e,"evaluating expression");
+  }
 
-  return derivativesx(derivativesx(expr[i]->Evaluate(),
-                                   autodiff::wrt(arg[i].get(d1)))[0],
-                                   autodiff::wrt(arg[i].get(d2)))[0].expr->val;
+  return Real(0);
 }
 
 
@@ -529,16 +543,23 @@ Vec3 EvalFuncSpatial<autodiff::var>::gradient (const Vec3& X) const
   if (i >= arg.size())
     return Vec3();
 
-  const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
-  *arg[i].x = X.x;
-  *arg[i].y = X.y;
-  *arg[i].z = X.z;
-  *arg[i].t = Xt ? Xt->t : Real(0);
+  try {
+    const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
+    *arg[i].x = X.x;
+    *arg[i].y = X.y;
+    *arg[i].z = X.z;
+    *arg[i].t = Xt ? Xt->t : Real(0);
+
+    const auto dx = derivativesx(expr[i]->Evaluate(),
+                                 autodiff::wrt(*arg[i].x, *arg[i].y, *arg[i].z));
 
-  const auto dx = derivativesx(expr[i]->Evaluate(),
-                               autodiff::wrt(*arg[i].x, *arg[i].y, *arg[i].z));
+    return Vec3(dx[0].expr->val, dx[1].expr->val, dx[2].expr->val);
+  }
+  catch (ExprEval::Exception& e) {
+    ExprException(e,"evaluating expression");
+  }
 
-  return Vec3(dx[0].expr->val, dx[1].expr->val, dx[2].expr->val);
+  return Vec3();
 }
 
 
@@ -553,26 +574,33 @@ SymmTensor EvalFuncSpatial<autodiff::var>::hessian (const Vec3& X) const
   if (i >= arg.size())
     return SymmTensor(3);
 
-  const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
-  *arg[i].x = X.x;
-  *arg[i].y = X.y;
-  *arg[i].z = X.z;
-  *arg[i].t = Xt ? Xt->t : Real(0);
+  try {
+    const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
+    *arg[i].x = X.x;
+    *arg[i].y = X.y;
+    *arg[i].z = X.z;
+    *arg[i].t = Xt ? Xt->t : Real(0);
 
-  const auto dx =
-    derivativesx(expr[i]->Evaluate(), autodiff::wrt(*arg[i].x, *arg[i].y, *arg[i].z));
+    const auto dx =
+      derivativesx(expr[i]->Evaluate(), autodiff::wrt(*arg[i].x, *arg[i].y, *arg[i].z));
 
-  const auto [uxx, uxy, uxz] =
-    derivativesx(dx[0], autodiff::wrt(*arg[i].x, *arg[i].y, *arg[i].z));
+    const auto [uxx, uxy, uxz] =
+      derivativesx(dx[0], autodiff::wrt(*arg[i].x, *arg[i].y, *arg[i].z));
 
-  const auto [uyy, uyz] =
-    derivativesx(dx[1], autodiff::wrt(*arg[i].y, *arg[i].z));
+    const auto [uyy, uyz] =
+      derivativesx(dx[1], autodiff::wrt(*arg[i].y, *arg[i].z));
 
-  const auto [uzz] =
-    derivativesx(dx[2], autodiff::wrt(*arg[i].z));
+    const auto [uzz] =
+      derivativesx(dx[2], autodiff::wrt(*arg[i].z));
+
+    return SymmTensor({uxx.expr->val, uyy.expr->val, uzz.expr->val,
+                       uxy.expr->val, uyz.expr->val, uxz.expr->val});
+  }
+  catch (ExprEval::Exception& e) {
+    ExprException(e,"evaluating expression");
+  }
 
-  return SymmTensor({uxx.expr->val, uyy.expr->val, uzz.expr->val,
-                     uxy.expr->val, uyz.expr->val, uxz.expr->val});
+  return SymmTensor(3);
 }
 
 
-- 
2.43.0


From 184894fdf79c32024bf331696c47dc5ac02d0e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 045/114] fix: keep the step counter when the time step limit
 is reached

The counter was incremented also by the increment that was refused,
such that the time-slab adaptive driver saved the last state twice
under a step number that never was solved.
---
 src/SIM/TimeStep.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 2af5c7b..c262a8c 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -267,13 +267,14 @@ bool TimeStep::increment ()
       IFEM::cout <<"\n  Time integration completed."<< std::endl;
     return false;
   }
-  else if (step++ == maxStep && maxStep > 0)
+  else if (step >= maxStep && maxStep > 0)
   {
     IFEM::cout <<"\n  ** Terminating, maximum number of time steps reached."
                << std::endl;
     return false;
   }
 
+  ++step;
   niter = iter;
   time.t += time.dt;
 
-- 
2.43.0


From 8b68301992ab0e5f5e9c1755b67de0eda958e64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 046/114] fix: restore the time step data when resuming after
 mesh refinement

TimeStep::reset(int) only resets the step counter when there are no
explicit time step definitions, and the restart from the initial time
ignores a restart from file, such that the simulation was resumed at
the predicted time instead of the time of the stored state.
---
 Apps/Utils/SIMSolverTS.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Apps/Utils/SIMSolverTS.h b/Apps/Utils/SIMSolverTS.h
index 67ef98a..581c09f 100644
--- a/Apps/Utils/SIMSolverTS.h
+++ b/Apps/Utils/SIMSolverTS.h
@@ -93,7 +93,7 @@ public:
     while (!this->tp.finished())
     {
       this->S1.saveState(); // Save current solution state internally
-      int tranStep = this->tp.step; // Time step of next solution transfer
+      TimeStep tranStep(this->tp); // Time step of next solution transfer
       int lastRef = 1, refElms = 0;
 
       // Prediction cycle loop, disable staggering cycles
@@ -103,8 +103,8 @@ public:
         lastRef = 0;
         if (iPred > 0)
         {
-          // Reset time step counter to the last saved state
-          this->tp.reset(tranStep);
+          // Reset time step data to the last saved state
+          this->tp = tranStep;
           // Save current solution state internally for the refined mesh
           this->S1.saveState();
         }
@@ -147,7 +147,7 @@ public:
         // Either the mesh was refined or we were doing prediction steps
         // without staggering cycles. Now continue (at most) nForward steps
         // without checking for further refinement at those steps.
-        this->tp.reset(tranStep);
+        this->tp = tranStep;
         IFEM::cout <<"\n  >>> Resuming simulation from time="<< this->tp.time.t;
         if (lastRef > 0)
         {
-- 
2.43.0


From 23118d053b57f228810ba39bab4fb7c2469a0711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 047/114] fix: do not lose a mesh update when no time level is
 written

The flag for updated geometry was ignored for steps not being dumped,
such that the next level had results referring to an older mesh.
---
 src/Utility/DataExporter.C | 4 ++++
 src/Utility/DataExporter.h | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/Utility/DataExporter.C b/src/Utility/DataExporter.C
index 8e05cc1..56e9e67 100644
--- a/src/Utility/DataExporter.C
+++ b/src/Utility/DataExporter.C
@@ -94,6 +94,9 @@ bool DataExporter::setFieldValue (const std::string& name,
 
 bool DataExporter::dumpTimeLevel (const TimeStep* tp, bool geoUpd, bool doLog)
 {
+  // An update of the geometry is pending until the next level is written
+  geoUpd = m_geoUpd = geoUpd || m_geoUpd;
+
   if (tp) {
     if (tp->step > 0 && tp->step < std::max(0,m_last_step) + m_ndump)
       return true; // write only every m_ndump step
@@ -124,6 +127,7 @@ bool DataExporter::dumpTimeLevel (const TimeStep* tp, bool geoUpd, bool doLog)
       return false;
 
   ++m_level;
+  m_geoUpd = false;
   double time = tp ? tp->time.t : 0.0;
   if (tp && doLog)
     IFEM::cout <<"  Dumping results for step="<< tp->step <<" time="
diff --git a/src/Utility/DataExporter.h b/src/Utility/DataExporter.h
index 4d388fd..b33900b 100644
--- a/src/Utility/DataExporter.h
+++ b/src/Utility/DataExporter.h
@@ -143,6 +143,8 @@ protected:
   int  m_ndump;     //!< Time level stride for dumping
   int  m_level;     //!< Current time level
   int  m_last_step; //!< Last time step we dumped for
+
+  bool m_geoUpd = false; //!< If \e true, a geometry update is pending
 };
 
 //! \brief Convenience type alias
-- 
2.43.0


From 25493d1bdcea8ede1fccc3c66474120811cc3de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 048/114] fix: report failing result export in the adaptive
 driver loop

---
 Apps/Utils/SIMSolverAdap.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Apps/Utils/SIMSolverAdap.h b/Apps/Utils/SIMSolverAdap.h
index 8c7c1d1..2a2a564 100644
--- a/Apps/Utils/SIMSolverAdap.h
+++ b/Apps/Utils/SIMSolverAdap.h
@@ -126,8 +126,9 @@ public:
         return 1;
       else if (!aSim.writeGlv(infile,iStep))
         return 2;
-      else if (SIMSolverStat<T1>::exporter)
-        SIMSolverStat<T1>::exporter->dumpTimeLevel(nullptr,true);
+      else if (SIMSolverStat<T1>::exporter &&
+               !SIMSolverStat<T1>::exporter->dumpTimeLevel(nullptr,true))
+        return 2;
 
     return 0;
   }
-- 
2.43.0


From 724aa5df22b0586cd1872b5426c988308a33511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 049/114] fix: write the whole program banner through the log

---
 src/IFEM.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IFEM.C b/src/IFEM.C
index ffb5a61..4a8058a 100644
--- a/src/IFEM.C
+++ b/src/IFEM.C
@@ -63,7 +63,7 @@ int IFEM::Init (int arg_c, char** arg_v, const char* title, bool silent)
   {
     int i, nchar = 13 + strlen(title);
     IFEM::cout <<"\n >>> IFEM "<< title <<" <<<\n ";
-    for (i = 0; i < nchar; i++) std::cout <<'=';
+    for (i = 0; i < nchar; i++) IFEM::cout <<'=';
     IFEM::cout <<"\n\n Executing command:\n";
 #ifdef HAVE_MPI
     int nProc = 1;
-- 
2.43.0


From be3a18a66c4efe863a6c96959bf7d169d0671ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 050/114] fix: clear also the timers of the other threads in
 the profiler

---
 src/Utility/Profiler.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Utility/Profiler.h b/src/Utility/Profiler.h
index de4f370..0138396 100644
--- a/src/Utility/Profiler.h
+++ b/src/Utility/Profiler.h
@@ -61,7 +61,13 @@ public:
   //! \brief Prints a profiling report for all tasks that have been measured.
   template<class Stream> void report(Stream& os) const;
   //! \brief Clears the profiler.
-  void clear() { myTimers.clear(); allCPU = allWall = 0.0; nRunners = 0; }
+  void clear()
+  {
+    myTimers.clear();
+    for (ProfileMap& timers : myMTimers) timers.clear();
+    allCPU = allWall = 0.0;
+    nRunners = 0;
+  }
 
   static bool indentReport; //!< If \e true, indicate task level by indent
 
-- 
2.43.0


From 78e5c350f9060e4f69604d959b8633b91c4a4a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 051/114] fix: a deleted profiler is no longer the current
 profiler

---
 src/Utility/Profiler.C | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Utility/Profiler.C b/src/Utility/Profiler.C
index 3099338..f8cc98c 100644
--- a/src/Utility/Profiler.C
+++ b/src/Utility/Profiler.C
@@ -54,6 +54,9 @@ Profiler::~Profiler ()
 
   LinAlgInit::decrefs();
   IFEM::Close();
+
+  if (utl::profiler == this)
+    utl::profiler = nullptr;
 }
 
 
-- 
2.43.0


From 02daec67a362d2988dbe4e7bf3110d0896f645b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 052/114] fix: leave the calls column blank for single-call
 thread timers

The thread number was printed in the column of the number of calls.
---
 src/Utility/Profiler.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Utility/Profiler.C b/src/Utility/Profiler.C
index f8cc98c..e595cf0 100644
--- a/src/Utility/Profiler.C
+++ b/src/Utility/Profiler.C
@@ -244,7 +244,10 @@ void Profiler::report (Stream& os) const
           os << it->first.substr(0,22);
         else
           os << it->first << std::string(22-it->first.size(),' ');
-        os <<'|'<< it->second <<"     "<< i+1 << std::endl;
+        os <<'|'<< it->second;
+        if (it->second.nCalls <= 1)
+          os <<"      "; // the number of calls is not printed
+        os <<"     "<< i+1 << std::endl;
       }
 
   // Finally, print the "other" and "total" times
-- 
2.43.0


From fcfb9f00a1d4ce051e357c8dbb369aca95f71803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 053/114] fix: account for all timers when selecting the unit
 of the mean times

Only the wall time of the main thread timers were checked, such that the
columns ran together for long mean CPU times and other threads.
---
 src/Utility/Profiler.C | 9 ++++++---
 src/Utility/Profiler.h | 4 ++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Utility/Profiler.C b/src/Utility/Profiler.C
index e595cf0..ad0cf7a 100644
--- a/src/Utility/Profiler.C
+++ b/src/Utility/Profiler.C
@@ -185,10 +185,13 @@ void Profiler::report (Stream& os) const
     // Make sure the task has stopped profiling (in case of exceptions)
     if (timer.second.running)
       const_cast<Profiler*>(this)->stop(timer.first);
-    if (timer.second.nCalls > 1)
-      if (timer.second.totalWall/timer.second.nCalls >= 100.0)
-        use_ms = false; // Print mean times in seconds
+    if (timer.second.longMean())
+      use_ms = false; // Print mean times in seconds
   }
+  for (const ProfileMap& timers : myMTimers)
+    for (const ProfileMap::value_type& timer : timers)
+      if (timer.second.longMean())
+        use_ms = false; // Print mean times in seconds
 
   // Find the time for "other" tasks, i.e., the difference between
   // the measured total time and the sum of all the measured tasks
diff --git a/src/Utility/Profiler.h b/src/Utility/Profiler.h
index 0138396..7383936 100644
--- a/src/Utility/Profiler.h
+++ b/src/Utility/Profiler.h
@@ -14,6 +14,7 @@
 #ifndef _PROFILER_H
 #define _PROFILER_H
 
+#include <algorithm>
 #include <iostream>
 #include <string>
 #include <vector>
@@ -88,6 +89,9 @@ private:
     { startWall = totalCPU = totalWall = 0.0; startCPU = 0; }
     //! \brief Checks if this profile item have any timing to report.
     bool haveTime() const { return totalCPU >= 0.005 || totalWall >= 0.005; }
+    //! \brief Checks if the mean time is too long for printing in milliseconds.
+    bool longMean() const
+    { return nCalls > 1 && std::max(totalCPU,totalWall) >= 100.0*nCalls; }
   };
 
   //! \brief Global stream operator printing a Profile instance.
-- 
2.43.0


From d0b8ce03c1a2eb797c0ce1365385ece1c486d007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:30 +0000
Subject: [PATCH 054/114] fix: assemble the constant matrix only until it has
 been solved with

It was initialized anew in each attempt on the first step, but assembled in
the first attempt only, such that an embedded method that had to reduce the
size of the first step continued with a zero matrix.
---
 Apps/Utils/SIMExplicitRK.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Apps/Utils/SIMExplicitRK.h b/Apps/Utils/SIMExplicitRK.h
index dcace82..a150398 100644
--- a/Apps/Utils/SIMExplicitRK.h
+++ b/Apps/Utils/SIMExplicitRK.h
@@ -122,7 +122,7 @@ public:
         return false;
 
       if (!solver.assembleSystem(time, Vectors(1, tmp),
-                                 !linear || (tp.step == 1 && i == 0)))
+                                 !linear || assemble))
         return false;
 
       // solve Mk = Au + f
-- 
2.43.0


From b5ab755a28c9e42015533497e60cb54a814d4831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:30 +0000
Subject: [PATCH 055/114] fix: never accept a step whose error estimate is not
 a number

With a tolerance of 1.0 or more, the error was not estimated at all.
---
 Apps/Utils/SIMExplicitRKE.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Apps/Utils/SIMExplicitRKE.h b/Apps/Utils/SIMExplicitRKE.h
index 54e98a3..5a41d48 100644
--- a/Apps/Utils/SIMExplicitRKE.h
+++ b/Apps/Utils/SIMExplicitRKE.h
@@ -87,8 +87,9 @@ public:
     if (!this->solver.initDirichlet(tp.time.t))
       return false;
     bool ok = this->solveRK(stages, tp);
-    double prevEst = 1.0;
-    while (ok && prevEst > errTol) {
+    double prevEst = 0.0;
+    bool accepted = false;
+    while (ok && !accepted) {
       Vector error(prevSol);
       // construct the error estimate
       for (size_t i=0;i<stages.size();++i)
@@ -101,7 +102,8 @@ public:
       std::vector<double> dMax(nf);
       prevEst = this->solver.solutionNorms(error, dMax.data(), iMax.data(), nf);
       this->solver.getProcessAdm().cout << "Error estimate: " << prevEst << std::endl;
-      if (prevEst > errTol) {
+      accepted = prevEst <= errTol; // false also if not a number
+      if (!accepted) {
         if (!tp.cutback())
           return false;
         this->solver.getSolution() = prevSol;
-- 
2.43.0


From b35e63f38fe0d5c07e4670e49ee5ef7f8fd2c435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:30 +0000
Subject: [PATCH 056/114] fix: each load vector of the implicit multi-step
 methods has one owner

Advancing shifted the pointers such that two entries pointed to the same
vector until the step was solved, and the first entry to a deleted one in
the first order method. A step that failed, or an initial condition, made
it be deleted twice. A repeated solution leaked it.
---
 Apps/Utils/SIMImplicitLMM.h | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/Apps/Utils/SIMImplicitLMM.h b/Apps/Utils/SIMImplicitLMM.h
index ef27d74..da63154 100644
--- a/Apps/Utils/SIMImplicitLMM.h
+++ b/Apps/Utils/SIMImplicitLMM.h
@@ -20,6 +20,9 @@
 #include "TimeIntUtils.h"
 #include "TimeStep.h"
 
+#include <memory>
+#include <utility>
+
 class DataExporter;
 
 
@@ -49,18 +52,11 @@ public:
     else
       order = 1;
 
-    loads.resize(order, nullptr);
+    loads.resize(order);
 
     Solver::msgLevel = 1; // prints primary solution summary only
   }
 
-  //! \brief Destructor frees up the load vectors.
-  ~SIMImplicitLMM()
-  {
-    for (SystemVector* v : loads)
-      delete v;
-  }
-
   //! \copydoc ISolver::getProcessAdm()
   const ProcessAdm& getProcessAdm() const { return solver.getProcessAdm(); }
 
@@ -91,7 +87,7 @@ public:
     if (!solver.assembleSystem(tp.time, Vectors(1, solver.getSolution()), false))
       return false;
 
-    loads[0] = solver.getRHSvector(0, true);
+    loads[0].reset(solver.getRHSvector(0, true));
 
     return true;
   }
@@ -110,15 +106,15 @@ public:
           if (!solver.assembleSystem(time, Vectors(1, solver.getSolution(j-1))))
             return false;
 
-          loads[j-2] = solver.getRHSvector(0, true);
+          loads[j-2].reset(solver.getRHSvector(0, true));
         }
         else
           hasICs = false;
     }
 
-    delete loads.back();
+    loads.back().reset();
     for (int j = order-2; j >= 0; --j)
-      loads[j+1] = loads[j];
+      loads[j+1] = std::move(loads[j]);
 
     return solver.advanceStep(tp);
   }
@@ -156,6 +152,8 @@ public:
   }
 
 protected:
+  using LoadVectors = std::vector<std::unique_ptr<SystemVector>>; //!< Convenience alias
+
   //! \brief Specialized nonlinear solver for implicit LMM methods.
   class LMMNonLinSIM : public NonLinSIM
   {
@@ -163,7 +161,7 @@ protected:
     //! \brief The constructor initializes default solution parameters.
     //! \param sim Pointer to the spline FE model
     //! \param load Vector of system load vectors
-    LMMNonLinSIM(SIMbase& sim, std::vector<SystemVector*>& load)
+    LMMNonLinSIM(SIMbase& sim, LoadVectors& load)
       : NonLinSIM(sim), loads(load) {}
 
     //! \brief Set scaling coefficients
@@ -188,13 +186,13 @@ protected:
     }
 
   private:
-    std::vector<SystemVector*>& loads; //!< Reference to load vectors
-    std::vector<double>         coefs; //!< Time integration coefficients
+    LoadVectors&        loads; //!< Reference to load vectors
+    std::vector<double> coefs; //!< Time integration coefficients
   };
 
   Solver& solver; //!< Reference to simulator
   LMMNonLinSIM nSim; //!< Nonlinear solver
-  std::vector<SystemVector*> loads; //!< Unscaled load vectors
+  LoadVectors loads; //!< Unscaled load vectors
   int order; //!< Order of method
   const std::string fieldName; //!< Name of primary solution fields (for ICs)
   bool hasICs = false; //!< If true, start with full order
-- 
2.43.0


From 256fe14e9ae740aaa24a495eec362f221a800e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:30 +0000
Subject: [PATCH 057/114] fix: restart the multi-step methods with the load
 history

The load vectors of the previous steps were not stored with the restart
data, such that the first step after a restart used a null pointer.
---
 Apps/Utils/SIMExplicitLMM.h | 23 +++++++++++++++++++----
 Apps/Utils/SIMImplicitLMM.h | 24 +++++++++++++++++++-----
 Apps/Utils/TimeIntUtils.C   | 37 +++++++++++++++++++++++++++++++++++++
 Apps/Utils/TimeIntUtils.h   | 25 +++++++++++++++++++++++++
 4 files changed, 100 insertions(+), 9 deletions(-)

diff --git a/Apps/Utils/SIMExplicitLMM.h b/Apps/Utils/SIMExplicitLMM.h
index 93e1852..a9657b5 100644
--- a/Apps/Utils/SIMExplicitLMM.h
+++ b/Apps/Utils/SIMExplicitLMM.h
@@ -96,7 +96,7 @@ public:
        {251.0/720.0, -1274.0/720.0, 2616.0/720.0, -2774.0/720.0, 1901.0/720.0}
     };
 
-    const int c_order = hasICs ? order-1 : std::min(order-1, tp.step-1);
+    const int c_order = this->noLoads();
     const std::vector<double>& AB_coef = AB_coefs[c_order];
 
     SystemVector* rhs = solver.getRHSvector(0, false);
@@ -132,7 +132,7 @@ public:
   {
     // Evaluate fluxes for initial conditions.
     if (tp.step == 1) {
-      hasICs = true;
+      bool hasICs = true; // start with full order
       for (int j = 2; j <= order; ++j) {
         std::stringstream str;
         str << fieldName << j;
@@ -153,6 +153,9 @@ public:
           break;
         }
       }
+      if (!hasICs)
+        for (std::unique_ptr<SystemVector>& load : loads)
+          load.reset();
     }
 
     loads.back().reset();
@@ -185,6 +188,7 @@ public:
   //! \param data Container for serialized data
   bool serialize(std::map<std::string,std::string>& data)
   {
+    TimeIntegration::serialize(data, solver.getName(), loads);
     return solver.serialize(data);
   }
 
@@ -192,6 +196,10 @@ public:
   //! \param[in] data Container for serialized data
   bool deSerialize(const std::map<std::string,std::string>& data)
   {
+    if (!TimeIntegration::deSerialize(data, solver.getName(), loads,
+                                      solver.getRHSvector(0)))
+      return false;
+
     return solver.deSerialize(data);
   }
 
@@ -199,12 +207,19 @@ public:
   void setLinear(bool enable) { linear = enable; }
 
 protected:
+  //! \brief Returns the number of available previous load vectors.
+  int noLoads() const
+  {
+    int n = 0;
+    while (n+1 < order && loads[n+1]) ++n;
+    return n;
+  }
+
   Solver& solver; //!< Reference to simulator
-  std::vector<std::unique_ptr<SystemVector>> loads; //!< Unscaled load vectors
+  LoadVectors loads; //!< Unscaled load vectors
   int order; //!< Order of method
   bool alone; //!< If true, this is a standalone solver
   const std::string fieldName; //!< Name of primary solution fields (for ICs)
-  bool hasICs = false; //!< If true, start with full order
   bool linear = false; //!< If true, mass matrix is constant
 };
 
diff --git a/Apps/Utils/SIMImplicitLMM.h b/Apps/Utils/SIMImplicitLMM.h
index da63154..c004855 100644
--- a/Apps/Utils/SIMImplicitLMM.h
+++ b/Apps/Utils/SIMImplicitLMM.h
@@ -70,7 +70,7 @@ public:
        {1.0/24.0, -5.0/24, 19.0/24.0, 9.0/24.0},
        {-19.0/720.0, 106.0/720.0, -264.0/720.0, 646.0/720.0, 251.0/720.0}};
 
-    const int c_order = hasICs ? order-1 : std::min(order-1, tp.step-1);
+    const int c_order = this->noLoads();
     nSim.setCoefs(AM_coefs[c_order]);
 
     nSim.initSol(2);
@@ -97,7 +97,7 @@ public:
   {
     // Evaluate fluxes for initial conditions.
     if (tp.step == 1) {
-      hasICs = true;
+      bool hasICs = true; // start with full order
       for (int j = 2; j <= order && hasICs; ++j)
         if (std::string fName = fieldName + std::to_string(j);
             solver.hasIC(fName)) {
@@ -110,6 +110,10 @@ public:
         }
         else
           hasICs = false;
+
+      if (!hasICs)
+        for (std::unique_ptr<SystemVector>& load : loads)
+          load.reset();
     }
 
     loads.back().reset();
@@ -141,6 +145,7 @@ public:
   //! \param data Container for serialized data
   bool serialize(std::map<std::string,std::string>& data)
   {
+    TimeIntegration::serialize(data, solver.getName(), loads);
     return solver.serialize(data);
   }
 
@@ -148,12 +153,14 @@ public:
   //! \param[in] data Container for serialized data
   bool deSerialize(const std::map<std::string,std::string>& data)
   {
+    if (!TimeIntegration::deSerialize(data, solver.getName(), loads,
+                                      solver.getRHSvector(0)))
+      return false;
+
     return solver.deSerialize(data);
   }
 
 protected:
-  using LoadVectors = std::vector<std::unique_ptr<SystemVector>>; //!< Convenience alias
-
   //! \brief Specialized nonlinear solver for implicit LMM methods.
   class LMMNonLinSIM : public NonLinSIM
   {
@@ -190,12 +197,19 @@ protected:
     std::vector<double> coefs; //!< Time integration coefficients
   };
 
+  //! \brief Returns the number of available previous load vectors.
+  int noLoads() const
+  {
+    int n = 0;
+    while (n+1 < order && loads[n+1]) ++n;
+    return n;
+  }
+
   Solver& solver; //!< Reference to simulator
   LMMNonLinSIM nSim; //!< Nonlinear solver
   LoadVectors loads; //!< Unscaled load vectors
   int order; //!< Order of method
   const std::string fieldName; //!< Name of primary solution fields (for ICs)
-  bool hasICs = false; //!< If true, start with full order
 };
 
 }
diff --git a/Apps/Utils/TimeIntUtils.C b/Apps/Utils/TimeIntUtils.C
index 38992fc..7797359 100644
--- a/Apps/Utils/TimeIntUtils.C
+++ b/Apps/Utils/TimeIntUtils.C
@@ -11,6 +11,8 @@
 //==============================================================================
 
 #include "TimeIntUtils.h"
+#include "SystemMatrix.h"
+#include <algorithm>
 
 
 TimeIntegration::Method TimeIntegration::get (const std::string& type)
@@ -107,3 +109,38 @@ int TimeIntegration::Steps (Method method)
     return 1;
   }
 }
+
+
+void TimeIntegration::serialize (SerializeData& data, const std::string& name,
+                                 const LoadVectors& loads)
+{
+  for (size_t j = 0; j < loads.size(); j++)
+    if (loads[j])
+      data[name + "::load" + std::to_string(j)] =
+        std::string(reinterpret_cast<const char*>(loads[j]->getRef()),
+                    loads[j]->dim()*sizeof(Real));
+}
+
+
+bool TimeIntegration::deSerialize (const SerializeData& data,
+                                   const std::string& name,
+                                   LoadVectors& loads,
+                                   const SystemVector* proto)
+{
+  for (size_t j = 0; j < loads.size(); j++)
+  {
+    loads[j].reset();
+    SerializeData::const_iterator it = data.find(name + "::load" +
+                                                 std::to_string(j));
+    if (it == data.end())
+      continue;
+    else if (!proto || it->second.size() != proto->dim()*sizeof(Real))
+      return false;
+
+    loads[j].reset(proto->copy());
+    std::copy(it->second.begin(),it->second.end(),
+              reinterpret_cast<char*>(loads[j]->getPtr()));
+  }
+
+  return true;
+}
diff --git a/Apps/Utils/TimeIntUtils.h b/Apps/Utils/TimeIntUtils.h
index 419ea75..4f12851 100644
--- a/Apps/Utils/TimeIntUtils.h
+++ b/Apps/Utils/TimeIntUtils.h
@@ -14,7 +14,12 @@
 #define _TIME_INT_UTILS_H
 
 #include "MatVec.h"
+#include <map>
+#include <memory>
 #include <string>
+#include <vector>
+
+class SystemVector;
 
 
 namespace TimeIntegration
@@ -69,6 +74,26 @@ namespace TimeIntegration
   int Order(Method method);
   //! \brief Returns the number of steps the given method.
   int Steps(Method method);
+
+  //! \brief Convenience type alias for the load history of a multi-step method.
+  using LoadVectors = std::vector<std::unique_ptr<SystemVector>>;
+  //! \brief Convenience type alias for serialized data.
+  using SerializeData = std::map<std::string,std::string>;
+
+  //! \brief Serializes the load history of a multi-step method.
+  //! \param data Container for serialized data
+  //! \param[in] name Name of the simulator the load vectors belong to
+  //! \param[in] loads The load vectors, the latest one first
+  void serialize(SerializeData& data, const std::string& name,
+                 const LoadVectors& loads);
+  //! \brief Restores the load history of a multi-step method.
+  //! \param[in] data Container for serialized data
+  //! \param[in] name Name of the simulator the load vectors belong to
+  //! \param loads The load vectors, the latest one first
+  //! \param[in] proto Load vector to copy the dimension from
+  //! \return \e false if the data does not match the dimension
+  bool deSerialize(const SerializeData& data, const std::string& name,
+                   LoadVectors& loads, const SystemVector* proto);
 }
 
 #endif
-- 
2.43.0


From a4413bc5f51679f536a09638ea722145b9e010ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:30 +0000
Subject: [PATCH 058/114] fix: no Dirichlet increments in the fluxes of the
 initial conditions

The constraint equations contain the prescribed values when the model has
been set up, which the implicit multi-step methods used as increments.
---
 Apps/Utils/SIMImplicitLMM.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Apps/Utils/SIMImplicitLMM.h b/Apps/Utils/SIMImplicitLMM.h
index c004855..39ec8de 100644
--- a/Apps/Utils/SIMImplicitLMM.h
+++ b/Apps/Utils/SIMImplicitLMM.h
@@ -103,6 +103,9 @@ public:
             solver.hasIC(fName)) {
           TimeDomain time(tp.time);
           time.t = tp.time.t - j*tp.time.dt;
+          // The prescribed values are in the initial condition already
+          if (!solver.updateDirichlet())
+            return false;
           if (!solver.assembleSystem(time, Vectors(1, solver.getSolution(j-1))))
             return false;
 
-- 
2.43.0


From 6036d5fc10bf934f9af76118575c208febfa4925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:30 +0000
Subject: [PATCH 059/114] fix: coupled dofs follow their masters when applying
 Dirichlet conditions

The value of a slave dof was replaced by the constant term of its constraint
equation only, i.e., by zero for a dof coupled to (or periodic with) another.
---
 src/LinAlg/SAM.C | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LinAlg/SAM.C b/src/LinAlg/SAM.C
index 96b51a5..b46458c 100644
--- a/src/LinAlg/SAM.C
+++ b/src/LinAlg/SAM.C
@@ -831,6 +831,9 @@ bool SAM::applyDirichlet (Vector& dofVec) const
     {
       int ip = mpmceq[iceq-1];
       dofVec[idof] = ttcc[ip-1];
+      for (; ip < mpmceq[iceq]-1; ip++)
+        if (mmceq[ip] > 0 && meqn[mmceq[ip]-1] > 0)
+          dofVec[idof] += ttcc[ip]*dofVec[mmceq[ip]-1];
     }
     else if (iceq == 0)
       dofVec[idof] = Real(0);
-- 
2.43.0


From defd34b12e995106028f8dc8a8916b5e353eba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:30 +0000
Subject: [PATCH 060/114] fix: use the size of the first step in the
 coefficients of the second

The second order backward difference formula is inconsistent in its first
use if the size of the second step differs from the first.
---
 src/Utility/BDF.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/BDF.C b/src/Utility/BDF.C
index 64aefd5..698b5ea 100644
--- a/src/Utility/BDF.C
+++ b/src/Utility/BDF.C
@@ -49,7 +49,7 @@ bool TimeIntegration::BDF::advanceStep (double dt, double dtn)
   if (coefs1.size() < 2)
     return false; // stationary problem
 
-  if (++step > 2 && degree == 1 && coefs.size() == 3 && dt > 0.0 && dtn > 0.0)
+  if (++step > 1 && degree == 1 && coefs.size() == 3 && dt > 0.0 && dtn > 0.0)
   {
     double tau = dt/dtn;
     double taup1 = tau + 1.0;
-- 
2.43.0


From 83297e78f5783ee3f5685b74a7a3e3157c7822df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:54 +0000
Subject: [PATCH 061/114] fix: an include file that cannot be loaded is a
 failure

It was ignored with a warning only, whereas the tags after it ended up in the
wrong parent or were dropped. A document without a root element and an include
tag without a file name crashed, and more than 10 levels of include files were
silently ignored.
---
 src/SIM/XMLInputBase.C | 48 +++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/SIM/XMLInputBase.C b/src/SIM/XMLInputBase.C
index 4c0f791..f01c5c3 100644
--- a/src/SIM/XMLInputBase.C
+++ b/src/SIM/XMLInputBase.C
@@ -27,11 +27,12 @@ const tinyxml2::XMLElement* loadXMLfile (tinyxml2::XMLDocument& doc,
                                          const char* fileName)
 {
   tinyxml2::XMLError err = doc.LoadFile(fileName);
-  if (err == tinyxml2::XML_SUCCESS)
+  if (err == tinyxml2::XML_SUCCESS && doc.RootElement())
     return doc.RootElement();
 
   std::cerr <<" *** Failed to load XML-file \""<< fileName
-            <<"\".\n" << doc.ErrorStr() << std::endl;
+            <<"\".\n"<< (doc.Error() ? doc.ErrorStr() : "No root element.")
+            << std::endl;
   return nullptr;
 }
 
@@ -48,14 +49,21 @@ struct IncludeInjector : public tinyxml2::XMLVisitor
   bool VisitEnter(const tinyxml2::XMLElement& elem,
                   const tinyxml2::XMLAttribute* attribute) override
   {
-    if (std::string(elem.Value()) == "include") {
+    if (isInclude(elem)) {
       tinyxml2::XMLDocument inc_doc(true, tinyxml2::COLLAPSE_WHITESPACE);
-        if (inc_doc.LoadFile(elem.GetText()) != tinyxml2::XML_SUCCESS) {
-          std::cerr << "** Error parsing include file " << elem.GetText() << std::endl;
-          return false;
+      const char* fileName = elem.GetText();
+      const tinyxml2::XMLElement* root = nullptr;
+      if (fileName && currElem)
+        root = loadXMLfile(inc_doc,fileName);
+      if (root)
+        currElem->InsertEndChild(root->DeepClone(&new_doc));
+      else {
+        std::cerr <<" *** Error parsing include file "
+                  << (fileName ? fileName : "(none)") << std::endl;
+        include_failed = true;
       }
-      currElem->InsertEndChild(inc_doc.RootElement()->DeepClone(&new_doc));
-      include_found = include_processed = true;
+      include_found = true;
+      return false; // the include tag itself has no children to be copied
     } else {
       tinyxml2::XMLElement* e = new_doc.NewElement(elem.Name());
       if (elem.GetText())
@@ -77,18 +85,22 @@ struct IncludeInjector : public tinyxml2::XMLVisitor
   //! brief Set element to insert into to the parent.
   bool VisitExit(const tinyxml2::XMLElement& elem) override
   {
-    if (currElem && currElem->Parent() && !include_processed)
+    if (currElem && currElem->Parent() && !isInclude(elem))
       currElem = const_cast<tinyxml2::XMLElement*>(currElem->Parent()->ToElement());
-    include_processed = false;
     return true;
   }
 
   tinyxml2::XMLDocument new_doc; //!< New document
   tinyxml2::XMLElement* currElem = nullptr; //!< Current root element
   bool include_found = false; //!< True if an include tag was found
+  bool include_failed = false; //!< True if an include file could not be loaded
 
 private:
-  bool include_processed = false; //!< True if an include tag was processed
+  //! \brief Returns \e true if \a elem is an include tag.
+  static bool isInclude(const tinyxml2::XMLElement& elem)
+  {
+    return !strcmp(elem.Value(),"include");
+  }
 };
 
 }
@@ -110,13 +122,19 @@ XMLInputBase::loadFile (tinyxml2::XMLDocument& doc,
     IFEM::cout <<"\nParsing input file "<< fileName << std::endl;
 
   if (tag) {
-    for (size_t i = 0; i < 10; ++i) { // Maximum 10 levels of include files
+    for (size_t i = 0; ; ++i) {
       IncludeInjector v;
       doc.RootElement()->Accept(&v);
-      if (v.include_found)
-        v.new_doc.DeepCopy(&doc);
-      else
+      if (v.include_failed)
+        return nullptr;
+      else if (!v.include_found)
         break;
+      else if (i == 10) { // Maximum 10 levels of include files
+        std::cerr <<" *** Too many levels of include files in \""<< fileName
+                  <<"\"."<< std::endl;
+        return nullptr;
+      }
+      v.new_doc.DeepCopy(&doc);
     }
     tag = doc.RootElement();
   }
-- 
2.43.0


From e0816ffb9bfb718d07c1b9f05cfbcb5872df7c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:54 +0000
Subject: [PATCH 062/114] fix: a patch that cannot be read is a failure

Only the patches preceding it were used, if any, without any notice.
---
 src/SIM/SIMinput.C | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index 0a2c6a1..caa7fcb 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -67,7 +67,7 @@ std::istream* SIMinput::getPatchStream (const char* tag, const char* patch)
 bool SIMinput::readPatches (std::istream& isp, const char* whiteSpace)
 {
   unsigned short int maxSpaceDim = 0;
-  for (int pchInd = myModel.size(); isp.good(); pchInd++)
+  for (int pchInd = myModel.size(); (isp >> std::ws).good(); pchInd++)
     if (ASMbase* pch = this->readPatch(isp,pchInd,CharVec(),whiteSpace); pch)
     {
       myModel.push_back(pch);
@@ -85,7 +85,7 @@ bool SIMinput::readPatches (std::istream& isp, const char* whiteSpace)
     nsd = maxSpaceDim;
   }
 
-  return true;
+  return !isp.bad(); // false if an I/O error occurred
 }
 
 
@@ -103,7 +103,7 @@ bool SIMinput::parseGeometryTag (const tinyxml2::XMLElement* elem)
     if (!isp) return true; // Neither <patch>, <patches> nor <patchfile>
 
     size_t oldPatches = myModel.size();
-    this->readPatches(*isp,"\t");
+    bool readOK = this->readPatches(*isp,"\t");
     delete isp;
 
     if (myModel.size() == oldPatches)
@@ -111,6 +111,12 @@ bool SIMinput::parseGeometryTag (const tinyxml2::XMLElement* elem)
       std::cerr <<" *** SIMinput::parse: No patches read."<< std::endl;
       return false;
     }
+    else if (!readOK)
+    {
+      std::cerr <<" *** SIMinput::parse: Failure reading patch "
+                << myModel.size()+1 <<"."<< std::endl;
+      return false;
+    }
 
     std::string fileNum;
     utl::getAttribute(elem,"num",fileNum,true);
-- 
2.43.0


From d9e7e82d81f95a5d6c59357c1b105435a7f03571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:54 +0000
Subject: [PATCH 063/114] fix: read property files completely or report failure

The last property was lost if there is no newline after it, and all properties
after a reading failure were silently ignored. A property on a non-existing
patch was assigned to patch 2^64-1.
---
 src/SIM/SIMinput.C | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index caa7fcb..c140c87 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -428,21 +428,36 @@ bool SIMinput::parseBCTag (const tinyxml2::XMLElement* elem)
       return false;
     }
     IFEM::cout <<"\tReading data file "<< file << std::endl;
-    while (isp.good())
+    while ((isp >> std::ws).good())
     {
       Property p;
-      int ldim, lindex = 0;
+      int ldim = 0, lindex = 0;
       isp >> p.pindx >> p.patch >> ldim;
       if (ldim < (int)this->getNoParamDim())
         isp >> lindex;
+      if (!isp)
+      {
+        std::cerr <<" *** SIMinput::parseBCTag: Failure reading file \""
+                  << file <<"\"."<< std::endl;
+        return false;
+      }
 
       // We always require the item indices to be 1-based
       p.ldim = ldim;
       p.lindx = 1+lindex;
-      p.patch = this->getLocalPatchIndex(1+p.patch);
-      if (p.patch > 0 && isp.good())
+      int pid = this->getLocalPatchIndex(1+p.patch);
+      if (pid < 0) return false;
+
+      p.patch = pid;
+      if (pid > 0)
         myProps.push_back(p);
     }
+    if (isp.bad())
+    {
+      std::cerr <<" *** SIMinput::parseBCTag: I/O error in file \""
+                << file <<"\"."<< std::endl;
+      return false;
+    }
   }
 
   else if (!strcasecmp(elem->Value(),"propertycodes"))
-- 
2.43.0


From f28352170868cceadf357cac40f977fb4c755245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:54 +0000
Subject: [PATCH 064/114] fix: an incomplete matlab mesh file is a failure

A truncated file was accepted with the nodes and elements before the end of it,
with zero coordinates for a truncated line. The rest of the file was also taken
as elements if the last element was of an unsupported type.
---
 src/ASM/ASMutils.C | 55 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/ASM/ASMutils.C b/src/ASM/ASMutils.C
index 480b6bf..32680fe 100644
--- a/src/ASM/ASMutils.C
+++ b/src/ASM/ASMutils.C
@@ -54,34 +54,57 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
     return false;
   }
 
+  // Lambda function for reporting a reading failure.
+  auto&& failure = [&is](const char* what)
+  {
+    std::cerr <<" *** ASM::readMatlab: "<< (is.bad() ? "I/O error" : "Failure")
+              <<" while reading "<< what <<"."<< std::endl;
+    return false;
+  };
+
   std::getline(is,cline);
   while (readLine(cline,'['))
-    if (cline.find("Node=") == cline.length()-5)
+    if (is.eof())
     {
-      while (readLine(cline))
+      // No more arrays, check that the last statement is complete
+      if (cline.find('=') != std::string::npos && cline.back() != ';')
+        return failure("last statement");
+      break;
+    }
+    else if (cline.find("Node=") == cline.length()-5)
+    {
+      bool complete = false;
+      while (!complete && readLine(cline))
       {
-        size_t id; Vec3 X;
-        std::istringstream(cline) >> id >> X;
+        complete = cline.back() == ';';
+        size_t id = 0; Vec3 X;
+        std::istringstream row(cline);
+        if (!(row >> id >> X.x) || id < 1)
+          return failure("nodes");
+        row >> X.y >> X.z; // might be lacking in 1D and 2D
 #if SP_DEBUG > 1
         std::cout << id <<": "<< X << std::endl;
 #endif
         if (id > nodes.size()) nodes.resize(id);
         nodes[id-1] = X;
-
-        if (cline.back() == ';') break;
       }
+      if (!complete)
+        return failure("nodes");
 #ifdef SP_DEBUG
       std::cout <<"Read "<< nodes.size() <<" nodes."<< std::endl;
 #endif
     }
     else if (cline.find("Element=") == cline.length()-8)
     {
-      while (readLine(cline))
+      bool complete = false;
+      while (!complete && readLine(cline))
       {
-        size_t id; int node;
+        complete = cline.back() == ';';
+        size_t id = 0; int node;
         IntVec mnpc; mnpc.reserve(4);
         std::istringstream selem(cline);
-        selem >> id >> node;
+        if (!(selem >> id >> node) || id < 1)
+          return failure("elements");
         while (selem)
         {
           mnpc.push_back(node-1);
@@ -102,8 +125,9 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
         }
         if (id > MNPC.size()) MNPC.resize(id);
         MNPC[id-1] = mnpc;
-        if (cline.back() == ';') break;
       }
+      if (!complete)
+        return failure("elements");
 #ifdef SP_DEBUG
       std::cout <<"Read "<< MNPC.size() <<" elements."<< std::endl;
 #endif
@@ -111,7 +135,9 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
     else if (cline.back() == '=')
     {
       std::string setname = cline.substr(0,cline.length()-1);
-      if (readLine(cline,']'))
+      if (!readLine(cline,']') || is.eof())
+        return failure("node set");
+      else
       {
         size_t i = 0; // Remove the '...' continuation markers
         while ((i = cline.find_first_of('.',i)) != std::string::npos)
@@ -136,6 +162,13 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
       }
     }
 
+  if (is.bad())
+    return failure("file");
+  else if (nodes.empty())
+    return failure("nodes");
+  else if (MNPC.empty())
+    return failure("elements");
+
   return true;
 }
 
-- 
2.43.0


From 61f549413a4693bdb0f113eafe4d5a8df617daac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:54 +0000
Subject: [PATCH 065/114] fix: report failure to read a piece-wise linear
 function from file

After an I/O error, a line of more than 1023 characters or a truncated line,
a function of the values before it was used without any notice, and a blank
line resulted in a point of undefined values.
---
 src/Utility/Functions.C | 52 +++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index 4b681df..8a02490 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -32,6 +32,16 @@ namespace
 {
   const Real zTol = Real(1.0e-12); //!< Zero tolerance on function values
 
+  //! \brief Reads the next line that is neither blank nor a comment.
+  bool readDataLine (std::istream& is, std::string& line)
+  {
+    while (std::getline(is,line))
+      if (line.find_first_not_of(" \t\r") != std::string::npos && line[0] != '#')
+        return true;
+
+    return false;
+  }
+
   //! \brief Creates a scalar function by parsing a character string.
   const ScalarFunc* parseFunction (const char* type, char* cline,
                                    Real C = Real(1), bool print = true,
@@ -172,17 +182,20 @@ LinearFunc::LinearFunc (const char* file, int c, Real s) : scale(s)
     return;
   }
 
-  char temp[1024];
-  while (is.good() && is.getline(temp,1024))
+  std::string line;
+  bool ok = true;
+  while (ok && readDataLine(is,line))
   {
-    if (temp[0] == '#') continue;
-    std::stringstream str(temp);
+    std::stringstream str(line);
     Real x, v;
     str >> x >> v;
     if (c < 2)
       std::swap(x,v);
     else for (int i = 2; i < c; i++)
       str >> v;
+    if (!str)
+      ok = false;
+    else
     if (fvals.empty() || fvals.back().first <= x)
       fvals.push_back({x,v});
     else if (fvals.back().first-x < zTol*fvals.back().first)
@@ -205,6 +218,14 @@ LinearFunc::LinearFunc (const char* file, int c, Real s) : scale(s)
       return;
     }
   }
+
+  if (!ok || is.bad() || fvals.empty())
+  {
+    std::cerr <<"\n *** LinearFunc: Failed to read file "<< file
+              <<" (after "<< fvals.size() <<" points)"
+              <<", function will be f(x) = "<< scale <<"*x"<< std::endl;
+    fvals.clear();
+  }
 }
 
 
@@ -291,16 +312,19 @@ LinVecFunc::LinVecFunc (const char* file, int c)
     return;
   }
 
-  char temp[1024];
-  while (is.good() && is.getline(temp,1024))
+  std::string line;
+  bool ok = true;
+  while (ok && readDataLine(is,line))
   {
-    if (temp[0] == '#') continue;
-    std::stringstream str(temp);
+    std::stringstream str(line);
     Real x;
     Vec3 v;
     str >> x;
-    for (int i = 2; i < c; i++) str >> v.x;
-    str >> v;
+    for (int i = 1; i < c; i++) str >> v.x;
+    ok = !str.fail();
+    str >> v.y >> v.z; // might be lacking in 1D and 2D
+    if (!ok)
+      continue;
     if (fvals.empty() || fvals.back().first <= x)
       fvals.push_back({x,v});
     else if (fvals.back().first-x < zTol*fvals.back().first)
@@ -323,6 +347,14 @@ LinVecFunc::LinVecFunc (const char* file, int c)
       return;
     }
   }
+
+  if (!ok || is.bad() || fvals.empty())
+  {
+    std::cerr <<"\n *** LinVecFunc: Failed to read file "<< file
+              <<" (after "<< fvals.size() <<" points)"
+              <<", function will be identically zero."<< std::endl;
+    fvals.clear();
+  }
 }
 
 
-- 
2.43.0


From fe5d02e9d9a7e0f00bfa22656e38a0a605340533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:54 +0000
Subject: [PATCH 066/114] fix: report failure to read a Chebyshev polynomial
 from file

The coefficients that could not be read were silently zero, and the number of
them was undefined if the file ended before the size of all dimensions.
---
 src/Utility/Chebyshev.C | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/Utility/Chebyshev.C b/src/Utility/Chebyshev.C
index ea03879..dc0cee3 100644
--- a/src/Utility/Chebyshev.C
+++ b/src/Utility/Chebyshev.C
@@ -15,6 +15,7 @@
 #include "MatVec.h"
 
 #include <fstream>
+#include <iostream>
 #include <sstream>
 #include <numeric>
 
@@ -77,7 +78,12 @@ ChebyshevFunc::ChebyshevFunc (const std::string& input, bool file)
     if (in.good())
       this->read(in);
     else
-      n[0] = n[1] = n[2] = 0;
+    {
+      std::cerr <<" *** ChebyshevFunc: Failed to open file "<< input
+                <<", function will be identically zero."<< std::endl;
+      n = {};
+      domain = {};
+    }
   } else {
     std::stringstream in;
     in.str(input);
@@ -88,14 +94,25 @@ ChebyshevFunc::ChebyshevFunc (const std::string& input, bool file)
 
 void ChebyshevFunc::read (std::istream& in)
 {
+  n = {};
+  domain = {};
   for (size_t i = 0; i < 3; ++i) {
     in >> n[i] >> domain[i][0] >> domain[i][1];
     if (n[i] == 0)
       n[i] = 1;
   }
-  coefs.resize(n[0]*n[1]*n[2]);
+  if (in)
+    coefs.resize(n[0]*n[1]*n[2]);
   for (double& coef : coefs)
     in >> coef;
+
+  if (!in)
+  {
+    std::cerr <<" *** ChebyshevFunc: Failed to read "<< coefs.size()
+              <<" coefficients, function will be identically zero."<< std::endl;
+    n = {};
+    coefs.clear();
+  }
 }
 
 
-- 
2.43.0


From e8bcb9592eacd5b7ff1b4e4f06e072b419ba18d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:54 +0000
Subject: [PATCH 067/114] fix: load dense matrices from files with a label

The dimensions were searched for from the equal sign and not after it, such
that matrices dumped with a label in the flat format could not be loaded.
---
 src/LinAlg/DenseMatrix.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/DenseMatrix.C b/src/LinAlg/DenseMatrix.C
index 9b1fefb..7499197 100644
--- a/src/LinAlg/DenseMatrix.C
+++ b/src/LinAlg/DenseMatrix.C
@@ -195,7 +195,7 @@ bool DenseMatrix::load (const char* fileName, bool binary)
   else
   {
     char* cdim = strstr(header,"=");
-    std::stringstream sdim(cdim ? cdim : header);
+    std::stringstream sdim(cdim ? cdim+1 : header);
     sdim >> nrow >> ncol >> flag;
   }
   if (nrow != myMat.rows() || ncol != myMat.cols())
-- 
2.43.0


From d5c660e58a392446178d0e53eba3067863064310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:44 +0000
Subject: [PATCH 068/114] fix: read the elements of a partition from file

The elements were read into the array of partition sizes and were thus all
zero, and a partitioning file that could not be read was not noticed.
---
 src/SIM/SIMinput.C | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index c140c87..79194ed 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -31,6 +31,7 @@
 #include "HDF5Restart.h"
 #include "IFEM.h"
 #include "tinyxml2.h"
+#include <algorithm>
 #include <fstream>
 #include <sstream>
 #include <numeric>
@@ -220,9 +221,18 @@ bool SIMinput::parseGeometryTag (const tinyxml2::XMLElement* elem)
           if (procId++ < adm.getProcId()) ofs += eofs;
         }
         ifs.seekg(ofs*sizeof(int), std::ios_base::cur);
-        elms.resize(elmOfs[adm.getProcId()]);
-        for (int& eofs : elmOfs)
-          ifs.read(reinterpret_cast<char*>(&eofs), sizeof(int));
+        elms.reserve(std::clamp(elmOfs[adm.getProcId()],0,1000000));
+        for (int iel = 0; ifs && iel < elmOfs[adm.getProcId()]; iel++)
+        {
+          elms.push_back(0);
+          ifs.read(reinterpret_cast<char*>(&elms.back()), sizeof(int));
+        }
+        if (!ifs)
+        {
+          std::cerr <<"\n *** SIMinput::parse: Failure reading partitioning"
+                    <<" from file "<< file << std::endl;
+          return false;
+        }
 
         IFEM::cout <<", size = "<< elms.size() << std::endl;
       }
-- 
2.43.0


From c9d3041e0681c25aaa0c3277e2a1600d549941af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:23 +0000
Subject: [PATCH 069/114] fix: keep the element activation counts of each
 simulator and file

They were kept in a static array sized by the first simulator exported,
such that activation flags were left out, or counts written out of bounds,
for any other simulator or file. They were neither written again after a
time level that failed to be written.
---
 src/Utility/HDF5Writer.C | 6 ++++--
 src/Utility/HDF5Writer.h | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index c0eccdf..9a60bde 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -127,6 +127,8 @@ bool HDF5Writer::closeFile(int level)
       H5Ldelete(m_file,std::to_string(level).c_str(),H5P_DEFAULT);
     m_ok &= HDF5Base::closeFile();
   }
+  if (!m_ok)
+    m_nActive.clear(); // the element activation flags need to be written again
   std::swap(ok,m_ok);
 #endif
   return ok;
@@ -350,8 +352,8 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
     field.fill(pchVec.ptr());
   };
 
-  static std::vector<size_t> old_count;
-  if ((results & DataExporter::ELEMENT_MASK) && old_count.empty())
+  std::vector<size_t>& old_count = m_nActive[sim->getName()];
+  if (results & DataExporter::ELEMENT_MASK)
     old_count.resize(sim->getNoPatches(),0);
 
   const IntegrandBase* prob = sim->getProblem();
diff --git a/src/Utility/HDF5Writer.h b/src/Utility/HDF5Writer.h
index c18017c..a3f320a 100644
--- a/src/Utility/HDF5Writer.h
+++ b/src/Utility/HDF5Writer.h
@@ -16,6 +16,7 @@
 
 #include "DataExporter.h"
 #include "HDF5Base.h"
+#include <map>
 
 class SIMbase;
 
@@ -133,6 +134,9 @@ protected:
 private:
   unsigned int m_flag; //!< The file flags to open HDF5 file with
   mutable bool m_ok = true; //!< If \e false, writing to the file has failed
+
+  //! Number of active elements in each patch of the simulators, as last written
+  std::map<std::string,std::vector<size_t>> m_nActive;
 #endif
 };
 
-- 
2.43.0


From 6fef7ec5fae09ea31b92dd2a1ce6928002b12180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:23 +0000
Subject: [PATCH 070/114] fix: don't write knot span fields and nodal forces
 that are disabled

A field that is written only once, or disabled through the control channel,
was still written at each time level.
---
 src/Utility/HDF5Writer.C | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index 9a60bde..b1e87ac 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -573,9 +573,12 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
 void HDF5Writer::writeKnotspan (int level, const DataEntry& entry,
                                 const std::string& prefix)
 {
+  if (!entry.second.enabled || !entry.second.data || entry.second.data2.empty())
+    return;
+
   const SIMbase* sim = static_cast<const SIMbase*>(entry.second.data);
   const Vector* sol = static_cast<const Vector*>(entry.second.data2.front());
-  if (!sim || !sol) return;
+  if (!sol) return;
 
 #ifdef HAS_HDF5
   std::string str = std::to_string(level) + "/" + sim->getName() + "-1";
@@ -733,6 +736,9 @@ bool HDF5Writer::writeTimeInfo (int level, double time)
 
 void HDF5Writer::writeNodalForces (int level, const DataEntry& entry)
 {
+  if (!entry.second.enabled || !entry.second.data || entry.second.data2.empty())
+    return;
+
 #ifdef HAS_HDF5
   std::string str = std::to_string(level) + "/nodal";
   this->addGroup(str);
-- 
2.43.0


From 955c3a963434dfbaf4452f3f7712062379e28fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:39 +0000
Subject: [PATCH 071/114] fix: write the projected solution of each patch for
 that patch

With separate projection bases, the values of the first patch were written for
all patches when the projected solution is registered as a field of its own,
and when the last of several projections is empty.
---
 src/Utility/HDF5Writer.C | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index b1e87ac..0f289df 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -331,7 +331,7 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
   // Lambda function for extracting projected solution for a patch.
   size_t projOfs = 0;
   auto&& extractProjection=[sim,&projOfs](ASMbase* pch, const Vector& glbVec,
-                                          Matrix& field, bool lastProj = false)
+                                          Matrix& field)
   {
     size_t ncmp = sim->getProblem()->getNoFields(2);
     if (ncmp == 0)
@@ -341,9 +341,8 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
     if (sim->fieldProjections())
     {
       pchVec.resize(ncmp * pch->getNoProjectionNodes());
-      size_t projEnd = projOfs + pchVec.size();
-      std::copy(glbVec.begin()+projOfs, glbVec.begin()+projEnd, pchVec.begin());
-      if (lastProj) projOfs = projEnd;
+      std::copy(glbVec.begin()+projOfs, glbVec.begin()+projOfs+pchVec.size(),
+                pchVec.begin());
     }
     else
       sim->extractPatchSolution(glbVec,pchVec,pch,ncmp,1);
@@ -425,7 +424,7 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
           if (!proj->at(p).empty())
           {
             Matrix field;
-            extractProjection(pch, proj->at(p), field, p+1 == proj->size());
+            extractProjection(pch, proj->at(p), field);
             for (size_t j = 0; j < field.rows(); j++)
               if (!prob->suppressOutput(j,ASM::PROJECTED))
                 this->writeArray(gid, prob->getField2Name(j,it->second.c_str()),
@@ -461,6 +460,9 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
                              H5T_NATIVE_DOUBLE);
       }
 
+      if (sim->fieldProjections()) // advance to the projections on next patch
+        projOfs += prob->getNoFields(2) * pch->getNoProjectionNodes();
+
       if (eNorm)
         for (size_t k = 1; k <= eNorm->rows(); k++)
           if (sim->extractElmRes(*eNorm,values,k,loc-1,name))
-- 
2.43.0


From 127bf8e279a3857eb7707db3508ee1b0d9bfd9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:39 +0000
Subject: [PATCH 072/114] fix: open the fields group also when only projections
 are written

---
 src/Utility/HDF5Writer.C | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index 0f289df..f082456 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -310,7 +310,8 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
       this->writeBasis(sim, sim->getName() + "-proj", -1, level);
   }
 
-  bool exportSol = results & (DataExporter::PRIMARY | DataExporter::SECONDARY);
+  bool exportSol = proj || ((results & (DataExporter::PRIMARY |
+                                        DataExporter::SECONDARY)) && !sol->empty());
   std::string str = std::to_string(level) + "/" + sim->getName();
   std::vector<hid_t> egroup, group;
   egroup.reserve(sim->getNoBasis());
@@ -320,7 +321,7 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
     this->addGroup(basis);
     if (eNorm || (results & DataExporter::ELEMENT_MASK))
       egroup.push_back(this->getGroup(basis + "/knotspan"));
-    if (exportSol && !sol->empty())
+    if (exportSol)
       group.push_back(this->getGroup(basis + "/fields"));
   }
   if (proj && sim->fieldProjections()) {
-- 
2.43.0


From 0e737e8166d0063ea3f48fffbf03ba849f5f41a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:10 +0000
Subject: [PATCH 073/114] fix: find the closest time level of a field on file

The time of a level is written as timeinfo/level but was read from
timeinfo/SIMbase-1, such that a field was zero at any time but zero. The first
level was assumed to be at time zero, and a time outside the range of the file
gave a zero field instead of the first or last level.
---
 src/Utility/FieldFunctions.C | 47 ++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/Utility/FieldFunctions.C b/src/Utility/FieldFunctions.C
index 3c09030..7a38ac0 100644
--- a/src/Utility/FieldFunctions.C
+++ b/src/Utility/FieldFunctions.C
@@ -20,6 +20,7 @@
 #include "ItgPoint.h"
 #include "Vec3.h"
 #include "StringUtils.h"
+#include <cmath>
 #ifdef HAS_HDF5
 #include "HDF5Reader.h"
 #include "ProcessAdm.h"
@@ -50,7 +51,7 @@ FieldFuncHDF5::FieldFuncHDF5 (const std::string& fName)
   : hdf5(nullptr), pAdm(nullptr)
 {
   lastLevel = 0;
-  lastTime = 0.0;
+  lastTime = std::nan(""); // unknown until read from file
   hasMultipleLevels = true;
 #ifdef HAS_HDF5
   pAdm = new ProcessAdm();
@@ -72,30 +73,40 @@ FieldFuncHDF5::~FieldFuncHDF5 ()
 int FieldFuncHDF5::findClosestLevel (double time) const
 {
   if (!hasMultipleLevels) return lastLevel;
-  if (time == lastTime) return lastLevel;
 #ifdef HAS_HDF5
+  // Lambda function for reading the time of a given level, if it exists.
+  auto&& readTime = [this](int level, double& t)
+  {
+    const std::string group = std::to_string(level) + "/timeinfo/";
+    return level >= 0 && (hdf5->readDouble(group + "level",t) ||
+                          hdf5->readDouble(group + "SIMbase-1",t));
+  };
+
   double t;
-  int incLev = time > lastTime ? 1 : -1;
-  bool ok = true;
-  while (ok)
+  if (std::isnan(lastTime))
   {
-    std::stringstream str;
-    str << lastLevel+incLev << "/timeinfo/SIMbase-1";
-    ok = hdf5->readDouble(str.str(),t);
-    if (ok && fabs(time-t) >= fabs(time-lastTime))
-    {
-#ifdef SP_DEBUG
-      std::cout <<"FieldFuncHDF5: New time level "<< lastLevel
-                <<" at t="<< lastTime <<" (dt="<< time-lastTime
-                <<")"<< std::endl;
-#endif
-      return lastLevel; // lastLevel is the closest to time
-    }
+    if (!readTime(lastLevel,t))
+      return lastLevel; // no time information in this file
     lastTime = t;
-    lastLevel += incLev;
   }
+
+  const int incLev = time > lastTime ? 1 : -1;
+  while (time != lastTime && readTime(lastLevel+incLev,t))
+  {
+    if (t != lastTime && fabs(time-t) >= fabs(time-lastTime))
+      break; // lastLevel is the closest to time
+    lastTime = t;
+    lastLevel += incLev;
+#ifdef SP_DEBUG
+    std::cout <<"FieldFuncHDF5: New time level "<< lastLevel
+              <<" at t="<< lastTime <<" (dt="<< time-lastTime
+              <<")"<< std::endl;
 #endif
+  }
+  return lastLevel;
+#else
   return -1;
+#endif
 }
 
 
-- 
2.43.0


From a479629786ecf16aec2c4f3697023658730bfbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:10 +0000
Subject: [PATCH 074/114] fix: report initial conditions that could not be read
 from file

A field, basis or file that could not be read was silently ignored, or ended in
a segmentation fault. The basis of another geometry level is not used any more,
when several initial conditions refer to the same basis.
---
 src/SIM/SIMinput.C | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index 79194ed..09f3526 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -1770,6 +1770,7 @@ bool SIMinput::setInitialCondition (SIMdependency* fieldHolder,
   HDF5Reader hdf5reader(fileName,adm);
 
   std::map<std::string,PatchVec> basisMap;
+  bool result = true;
 
   // Loop over the initial conditions
   for (const ICInfo& it : info)
@@ -1781,9 +1782,9 @@ bool SIMinput::setInitialCondition (SIMdependency* fieldHolder,
     if (!adm.dd.isPartitioned() || adm.getProcId() == 0) {
       // Load basis
       CharVec nf(1,this->getNoFields(it.basis));
-      PatchVec& basisVec = basisMap[it.file_basis];
       std::stringstream str;
       str << it.geo_level << "/" << it.file_basis << "/basis";
+      PatchVec& basisVec = basisMap[str.str()];
       int nPatches = hdf5reader.getFieldSize(str.str());
       if (basisVec.empty())
         for (int i = 0; i < nPatches; i++)
@@ -1792,11 +1793,17 @@ bool SIMinput::setInitialCondition (SIMdependency* fieldHolder,
             std::stringstream str, spg2;
             str << it.geo_level << "/" << it.file_basis << "/basis/" << i+1;
             std::string pg2;
-            hdf5reader.readString(str.str(),pg2);
-            spg2 << pg2;
-            basisVec.push_back(this->readPatch(spg2,i,nf));
+            ASMbase* pch = nullptr;
+            if (hdf5reader.readString(str.str(),pg2))
+            {
+              spg2 << pg2;
+              pch = this->readPatch(spg2,i,nf);
+            }
+            basisVec.push_back(pch);
           }
 
+      bool ok = nPatches == this->getNoPatches();
+
       // Load result field, patch by patch
       for (int i = 0; i < nPatches; i++)
       {
@@ -1804,16 +1811,32 @@ bool SIMinput::setInitialCondition (SIMdependency* fieldHolder,
         if (p <= 0) continue;
 
         ASMbase* pch = myModel[p-1];
+        if (pch->empty()) continue; // skip empty patches
+
         Vector loc, newloc;
         std::stringstream str;
         str << it.file_level <<"/"
             << it.file_basis <<"/fields/"
             << it.file_field <<"/"<< i+1;
-        hdf5reader.readVector(str.str(), loc);
+        if (!basisVec[p-1] || !hdf5reader.readVector(str.str(), loc))
+        {
+          ok = false;
+          continue;
+        }
         basisVec[p-1]->copyParameterDomain(pch);
         if (pch->evaluate(basisVec[p-1], loc, newloc, it.basis))
           pch->injectNodeVec(newloc, *field,
                              newloc.size()/pch->getNoNodes(it.basis), it.basis);
+        else
+          ok = false;
+      }
+
+      if (!ok)
+      {
+        std::cerr <<" *** SIMinput::setInitialCondition: Failed to read field \""
+                  << it.file_field <<"\" on basis \""<< it.file_basis
+                  <<"\" from "<< fileName << std::endl;
+        result = false;
       }
     }
 
@@ -1826,7 +1849,7 @@ bool SIMinput::setInitialCondition (SIMdependency* fieldHolder,
     for (ASMbase* pch : itb.second)
       delete pch;
 
-  return true;
+  return result;
 }
 
 
-- 
2.43.0


From 19aa73a3a85c2d2cb82c49dcece94cf839a5a815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:10 +0000
Subject: [PATCH 075/114] fix: skip a texture property that can not be read
 from file

The smallest and largest value of an empty array was taken.
---
 src/Utility/TextureProperties.C | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Utility/TextureProperties.C b/src/Utility/TextureProperties.C
index 7cff33c..be26fd0 100644
--- a/src/Utility/TextureProperties.C
+++ b/src/Utility/TextureProperties.C
@@ -38,10 +38,16 @@ void TextureProperties::parse(const tinyxml2::XMLElement* elem)
 
     if (textureFile.find(".h5") != std::string::npos ||
         textureFile.find(".hdf5") != std::string::npos) {
-      properties[prop].prescaled = true;
       ProcessAdm adm;
       HDF5Reader reader(textureFile, adm);
-      reader.read3DArray(prop, properties[prop].textureData);
+      Matrix3D data;
+      if (!reader.read3DArray(prop, data) || data.empty()) {
+        std::cerr << "Failed to read property " << prop
+                  << " from " << textureFile << std::endl;
+        continue;
+      }
+      properties[prop].prescaled = true;
+      properties[prop].textureData = data;
       properties[prop].min = *std::min_element(properties[prop].textureData.begin(),
                                                properties[prop].textureData.end());
       properties[prop].max = *std::max_element(properties[prop].textureData.begin(),
-- 
2.43.0


From 4f3c4223f16c2581426044ff451286ee3af5d154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:53 +0000
Subject: [PATCH 076/114] fix: skip the zero-volume elements in the element
 mask on file

---
 src/Utility/HDF5Writer.C | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index f082456..79334ed 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -472,9 +472,11 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
                              H5T_NATIVE_DOUBLE);
 
       if (results & DataExporter::ELEMENT_MASK) {
-        std::vector<char> mask(pch->getNoElms());
-        for (size_t i = 0; i < mask.size(); ++i)
-          mask[i] = pch->isElementActive(i,time) ? 1 : 0;
+        std::vector<char> mask;
+        mask.reserve(pch->getNoElms());
+        for (size_t i = 0; i < pch->getNoElms(true); ++i)
+          if (pch->getElmID(1+i) > 0) // skip the zero-volume elements
+            mask.push_back(pch->isElementActive(i,time) ? 1 : 0);
         size_t count = std::count(mask.begin(),mask.end(),1);
         if (count > old_count[idx-1])
           this->writeArray(egroup.front(), "mask", idx, mask.size(),
-- 
2.43.0


From 8d89777827f4e9e8a86bd3fef11e4e9d9f5ace56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:26 +0000
Subject: [PATCH 077/114] fix: write separately registered projections on the
 projection basis

---
 src/Utility/HDF5Writer.C | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index 79334ed..649ca9a 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -300,13 +300,18 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
   if (!(results & DataExporter::NORMS))
     eNorm = nullptr;
 
+  // Is there any field (registered here or separately) on the projection basis?
+  const bool projField = sim->fieldProjections() &&
+    (proj || ((results & DataExporter::SECONDARY) && !sol->empty() &&
+              entry.second.description == "projected"));
+
   if (prefix.empty() && !usedescription &&
       (level == 0 || geometryUpdated || (results & DataExporter::GRID)))
   {
     std::string bName = sim->getName() + "-1";
     for (size_t b = 1; b <= sim->getNoBasis(); b++, ++bName.back())
       this->writeBasis(sim,bName,b,level,results & DataExporter::REDUNDANT,results & DataExporter::L2G_NODE);
-    if (proj && sim->fieldProjections())
+    if (projField)
       this->writeBasis(sim, sim->getName() + "-proj", -1, level);
   }
 
@@ -324,7 +329,7 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
     if (exportSol)
       group.push_back(this->getGroup(basis + "/fields"));
   }
-  if (proj && sim->fieldProjections()) {
+  if (projField) {
     this->addGroup(str + "-proj");
     group.push_back(this->getGroup(str + "-proj/fields"));
   }
-- 
2.43.0


From e2114e989b586dc2cb7286e950521d294b77fa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:28 +0000
Subject: [PATCH 078/114] fix: accept repeated and illegal nodes in the nodal
 force map

---
 src/ASM/GlbForceVec.C | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ASM/GlbForceVec.C b/src/ASM/GlbForceVec.C
index 8814b3b..1530128 100644
--- a/src/ASM/GlbForceVec.C
+++ b/src/ASM/GlbForceVec.C
@@ -23,14 +23,15 @@
 bool GlbForceVec::initNodeMap (const std::vector<int>& globalNodes, size_t nfc)
 {
   nodeMap.clear();
-  nodeNum = globalNodes;
+  nodeNum.clear();
+  nodeNum.reserve(globalNodes.size());
 
   int illegal = 0, nnod = sam.getNoNodes();
-  for (size_t i = 0; i < globalNodes.size(); i++)
-    if (globalNodes[i] > 0 && globalNodes[i] <= nnod)
-      nodeMap[globalNodes[i]] = i+1;
-    else
+  for (int node : globalNodes)
+    if (node < 1 || node > nnod)
       illegal++;
+    else if (nodeMap.emplace(node,nodeNum.size()+1).second)
+      nodeNum.push_back(node); // the first occurrence of this node
 
   F.resize(nfc,nodeMap.size());
   if (illegal == 0) return true;
-- 
2.43.0


From 792340b108cd7802ebc90e39f3a489e00b10e95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:09 +0000
Subject: [PATCH 079/114] fix: dump the solution of nodes with different number
 of dofs

---
 src/SIM/SIMoutput.C | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index f46f994..38692ef 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -2182,12 +2182,13 @@ bool SIMoutput::dumpSolution (const Vector& psol, utl::LogStream& os) const
     for (size_t k = 0; k < nf; k++)
     {
       os << myProblem->getField1Name(k,"# FE");
+      size_t idof = k; // index of the k'th component of local node j
       for (size_t j = 1; j <= pch->getNoNodes(); j++)
       {
-        std::pair<int,int> dofs = mySam->getNodeDOFs(j);
-        int idof = dofs.first+k;
-        if (idof <= dofs.second)
-          os <<"\n"<< utl::trunc(patchSol[idof-1]);
+        size_t nndof = pch->getNodalDOFs(j);
+        if (k < nndof)
+          os <<"\n"<< utl::trunc(patchSol[idof]);
+        idof += nndof;
       }
       os << std::endl;
     }
-- 
2.43.0


From 2d8fce37ca71992f47c0f8a873665c9649a6bc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:09 +0000
Subject: [PATCH 080/114] fix: write the reaction forces of the result point
 nodes only

---
 src/SIM/SIMoutput.C | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index 38692ef..198f0dc 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -2255,6 +2255,9 @@ bool SIMoutput::dumpResults (const Vector& psol, double time,
     std::ios::fmtflags oldF = os.flags(std::ios::scientific | std::ios::right);
     for (size_t j = 0; j < points.size()+elms.size(); j++)
     {
+      if (j < points.size() && points[j] > 0)
+        points[j] = pch->getNodeID(points[j]);
+
       if (!formatted)
         os << time <<" ";
       else if (j >= points.size())
@@ -2262,10 +2265,7 @@ bool SIMoutput::dumpResults (const Vector& psol, double time,
       else if (points[j] < 0)
         os <<"  Point #"<< -points[j];
       else
-      {
-        points[j] = pch->getNodeID(points[j]);
         os <<"  Node #"<< points[j];
-      }
 
       bool newLine = false;
       // Convenience lambda returning proper newline char before identifier.
@@ -2315,7 +2315,7 @@ bool SIMoutput::dumpResults (const Vector& psol, double time,
         if (!sol3.empty()) newLine = true;
       }
 
-      if (reactionForces && points[j] > 0)
+      if (reactionForces && j < points.size() && points[j] > 0)
       {
         Vector rf; // print nodal reaction forces for nodes with prescribed DOFs
         if (mySam->getNodalReactions(points[j],*reactionForces,rf))
-- 
2.43.0


From 0e8ddf46929db96ce629700dccfdf8ff039ad455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:09 +0000
Subject: [PATCH 081/114] fix: write the results of points and elements of the
 same group

---
 src/SIM/SIMoutput.C | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index 198f0dc..435fd6c 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -2271,11 +2271,12 @@ bool SIMoutput::dumpResults (const Vector& psol, double time,
       // Convenience lambda returning proper newline char before identifier.
       auto&& newLineChr = [&newLine]() { return newLine ? "\n\t\t" : ":\t"; };
 
-      if (formatted && !sol1.empty())
+      const bool haveSol1 = j < sol1.cols(); // not for the elements
+      if (formatted && haveSol1)
         os << newLineChr() <<"sol1 =";
-      for (size_t i = 1; i <= sol1.rows(); i++)
+      for (size_t i = 1; i <= sol1.rows() && haveSol1; i++)
         os << std::setw(flWidth) << utl::trunc(sol1(i,j+1));
-      if (!sol1.empty()) newLine = true;
+      if (haveSol1) newLine = true;
 
       if (j < Xp.size())
       {
@@ -2291,12 +2292,17 @@ bool SIMoutput::dumpResults (const Vector& psol, double time,
         if (nxsol > 0) newLine = true;
       }
 
+      // The secondary solution of the points, if any, precedes the elements
+      const size_t nsol2 = sol2.cols() - std::min(sol2.cols(),elms.size());
+      const bool haveSol2 = j >= points.size() || j < nsol2;
+      const size_t jsol2 = j < points.size() ? j+1 : nsol2+j+1 - points.size();
+
       int isol = 1;
-      for (size_t i = 1; i <= sol2.rows(); i++)
+      for (size_t i = 1; i <= sol2.rows() && haveSol2; i++)
       {
         if (formatted && i%myProblem->getNo2ndSolPerLine() == 1)
           os << newLineChr() <<"sol"<< ++isol <<" =";
-        os << std::setw(flWidth) << utl::trunc(sol2(i,j+1));
+        os << std::setw(flWidth) << utl::trunc(sol2(i,jsol2));
         newLine = true;
       }
 
@@ -2356,7 +2362,11 @@ bool SIMoutput::evalResults (const Vectors& psol, const ResPointVec& gPoints,
     ++jPoint;
     if (pt.patch == patch->idx+1)
     {
-      if (opt.discretization >= ASM::Spline)
+      if (pt.iel > 0)
+      {
+        elms.push_back(pt.iel);
+      }
+      else if (opt.discretization >= ASM::Spline)
       {
         points.push_back(pt.inod > 0 ? pt.inod : -jPoint);
         for (short int k = 0; k < pt.npar; k++)
@@ -2368,10 +2378,6 @@ bool SIMoutput::evalResults (const Vectors& psol, const ResPointVec& gPoints,
         points.push_back(pt.inod);
         if (mySol) Xp.emplace_back(pt.X);
       }
-      else if (pt.iel > 0)
-      {
-        elms.push_back(pt.iel);
-      }
       else if (pt.npar < 0)
       {
         allElems = true; // Evaluation at all element centers
@@ -2397,11 +2403,11 @@ bool SIMoutput::evalResults (const Vectors& psol, const ResPointVec& gPoints,
 
   bool ok = false;
   Matrix tmp;
-  if (opt.discretization >= ASM::Spline)
+  if (points.empty() && !elms.empty())
+    ok = true; // Skip element center primary solution evaluation for now
+  else if (opt.discretization >= ASM::Spline)
     // Evaluate the primary solution variables
     ok = patch->evalSolution(tmp,patchSol,params.data(),false);
-  else if (!elms.empty())
-    ok = true; // Skip element center primary solution evaluation for now
   else if (points.empty())
     // Evaluate the primary solution variables at all element centers
     ok = patch->evalSolution(tmp,patchSol,nullptr,true);
@@ -2420,7 +2426,7 @@ bool SIMoutput::evalResults (const Vectors& psol, const ResPointVec& gPoints,
   if (ok)
     ok = augmentColumns(sol1,tmp);
 
-  if (psol.size() > 2 && (opt.discretization >= ASM::Spline || !points.empty()))
+  if (psol.size() > 2 && !points.empty())
     // Extract nodal point velocity and acceleration
     for (size_t idx = 1; idx < 3 && ok; idx++)
     {
@@ -2450,12 +2456,13 @@ bool SIMoutput::evalResults (const Vectors& psol, const ResPointVec& gPoints,
     return false;
 
   // Evaluate the secondary solution variables
-  if (elms.empty())
-    ok = patch->evalSolution(tmp,*myProblem,params.data(),points.empty());
-  else // evaluate at specified elements
-    ok = patch->evalSolution(tmp,*myProblem,elms);
+  if (elms.empty() || !points.empty())
+    ok = patch->evalSolution(tmp,*myProblem,params.data(),points.empty()) &&
+         augmentColumns(sol2,tmp);
+  if (!elms.empty() && ok) // evaluate at specified elements
+    ok = patch->evalSolution(tmp,*myProblem,elms) && augmentColumns(sol2,tmp);
 
-  if ((ok &= augmentColumns(sol2,tmp)) && getNames)
+  if (ok && getNames)
     for (size_t i = 0; i < myProblem->getNoFields(2); i++)
       compNames->push_back(myProblem->getField2Name(i));
 
-- 
2.43.0


From b387455305cf5efb40371da1f6701f749a9c9da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:09 +0000
Subject: [PATCH 082/114] fix: write the secondary solution of the result point
 nodes

---
 src/SIM/SIMoutput.C | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index 435fd6c..e86335f 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -2457,8 +2457,20 @@ bool SIMoutput::evalResults (const Vectors& psol, const ResPointVec& gPoints,
 
   // Evaluate the secondary solution variables
   if (elms.empty() || !points.empty())
-    ok = patch->evalSolution(tmp,*myProblem,params.data(),points.empty()) &&
-         augmentColumns(sol2,tmp);
+  {
+    ok = patch->evalSolution(tmp,*myProblem,params.data(),points.empty());
+    if (opt.discretization < ASM::Spline && !points.empty() && !tmp.empty())
+    {
+      // We have the secondary solution at all nodes, extract the result points
+      Matrix nodal;
+      std::swap(tmp,nodal);
+      tmp.resize(nodal.rows(),points.size());
+      for (size_t i = 0; i < points.size(); i++)
+        if (points[i] <= static_cast<int>(nodal.cols()))
+          tmp.fillColumn(1+i,nodal.getColumn(points[i]));
+    }
+    ok = ok && augmentColumns(sol2,tmp);
+  }
   if (!elms.empty() && ok) // evaluate at specified elements
     ok = patch->evalSolution(tmp,*myProblem,elms) && augmentColumns(sol2,tmp);
 
-- 
2.43.0


From c62ce00c6ebe34752b94e676d9c6c998805d0fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:09 +0000
Subject: [PATCH 083/114] fix: dump vectors with another number of components
 than the solution

---
 src/SIM/SIMoutput.C | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index e86335f..1fbe5b4 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -2545,10 +2545,10 @@ bool SIMoutput::dumpVector (const Vector& vsol, const char* fname,
       // Find all evaluation points within this patch, if any
       std::array<RealArray,3> params;
       IntVec points;
-      int jPoint = iPoint;
+      int jPoint = 1;
       for (const ResultPoint& pt : rptp.second)
       {
-        if (pt.patch == pch->idx+1)
+        if (pt.patch == pch->idx+1 && pt.iel < 1)
         {
           if (opt.discretization >= ASM::Spline)
           {
@@ -2571,6 +2571,14 @@ bool SIMoutput::dumpVector (const Vector& vsol, const char* fname,
         pch->extractNodeVec(vsol,lsol,nComp);
       if (opt.discretization >= ASM::Spline)
         ok &= pch->evalSolution(sol1,lsol,params.data(),false);
+      else if (nComp > 0 && !useMADOF)
+      {
+        // The number of components is not that of the primary solution
+        sol1.resize(nComp,points.size());
+        for (size_t j = 0; j < points.size() && ok; j++)
+          if ((ok = nComp*points[j] <= lsol.size()))
+            sol1.fillColumn(1+j,lsol.ptr()+nComp*(points[j]-1));
+      }
       else
         ok &= pch->ASMbase::getSolution(sol1,lsol,points);
 
-- 
2.43.0


From 5b7ed9f8972cf053adad025b4f0544262dcbe471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:09 +0000
Subject: [PATCH 084/114] fix: report result point files that could not be
 written

---
 src/SIM/SIMoutput.C | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index 1fbe5b4..d52bb54 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -565,6 +565,10 @@ void SIMoutput::preprocessResPtGroup (std::string& ptFile, ResPointVec& points)
       for (int idx : row) os <<" "<< idx;
       os <<"\n";
     }
+    os.close();
+    if (!os)
+      std::cerr <<" *** SIMoutput::preprocessResPtGroup: Failed to write "
+                << mapFile << std::endl;
   }
 
   size_t icoord = ptFile.find("_coord.");
@@ -585,6 +589,10 @@ void SIMoutput::preprocessResPtGroup (std::string& ptFile, ResPointVec& points)
       os << std::setw(flWidth) << pt.X[k];
     os << std::endl;
   }
+  os.close();
+  if (!os)
+    std::cerr <<" *** SIMoutput::preprocessResPtGroup: Failed to write "
+              << ptFile << std::endl;
 
   ptFile.erase(icoord,6); // erasing "_coord" from the file name
 }
@@ -2611,7 +2619,17 @@ bool SIMoutput::dumpVector (const Vector& vsol, const char* fname,
     }
 
     if (fs)
+    {
+      fs->close();
+      if (!*fs)
+      {
+        std::cerr <<" *** SIMoutput::dumpVector: Failed to write "
+                  << rptp.first << std::endl;
+        ok = false;
+      }
       delete fs;
+      fs = nullptr;
+    }
     else
     {
       os.precision(oldPrec);
@@ -2667,6 +2685,14 @@ bool SIMoutput::savePoints (const Vector& psol, double time, int step) const
           utl::LogStream logs(fs);
           if (!this->dumpResults(psol,time,logs,rptp.second,false,myPrec))
             return false;
+
+          fs.close();
+          if (!fs)
+          {
+            std::cerr <<" *** SIMoutput::savePoints: Failed to write "
+                      << rptp.first << std::endl;
+            return false;
+          }
           break;
         }
 
@@ -2736,6 +2762,14 @@ bool SIMoutput::saveResults (const Vectors& psol, double time, int step) const
     for (size_t c = 1; c <= sol.cols(); c++)
       fs <<" "<< sol(r,c);
     fs << '\n';
+
+    fs.close();
+    if (!fs)
+    {
+      std::cerr <<" *** SIMoutput::saveResults: Failed to write "
+                << fName << std::endl;
+      return false;
+    }
   }
 
   return true;
-- 
2.43.0


From 50170d5add89b017f15d6d90c13e0bd2129a0454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:09 +0000
Subject: [PATCH 085/114] fix: add the extension to result point files in
 folders with dots

---
 src/SIM/SIMoutput.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index d52bb54..c4eda8b 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -82,7 +82,8 @@ void SIMoutput::setPointResultFile (const std::string& filename, bool dumpCoord)
   std::string& myPtFile = myPoints.back().first;
 
   // Append extension .dat if nothing yet
-  if (myPtFile.find_last_of('.') == std::string::npos)
+  size_t idot = myPtFile.find_last_of("./");
+  if (idot == std::string::npos || myPtFile[idot] == '/')
     myPtFile.append(".dat");
   IFEM::cout <<"\tOutput file: "<< myPtFile << std::endl;
 
-- 
2.43.0


From d8d7972c055d75f578f90dd4ca5ff370aa83be9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:00 +0000
Subject: [PATCH 086/114] fix: write velocities and accelerations of grids
 covering several patches

The solution matrix of all patches was augmented by the velocity and
acceleration of the current patch, which failed from the second patch on.
---
 src/SIM/SIMoutput.C | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index c4eda8b..0a13804 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -2432,8 +2432,10 @@ bool SIMoutput::evalResults (const Vectors& psol, const ResPointVec& gPoints,
     for (size_t i = 0; i < myProblem->getNoFields(1); i++)
       compNames->push_back(myProblem->getField1Name(i));
 
+  // Primary solution of this patch
+  Matrix patchSol1;
   if (ok)
-    ok = augmentColumns(sol1,tmp);
+    std::swap(patchSol1,tmp);
 
   if (psol.size() > 2 && !points.empty())
     // Extract nodal point velocity and acceleration
@@ -2446,7 +2448,7 @@ bool SIMoutput::evalResults (const Vectors& psol, const ResPointVec& gPoints,
       else
         ok = patch->getSolution(tmp,locVec,points);
       if (ok)
-        ok = sol1.augmentRows(tmp);
+        ok = patchSol1.augmentRows(tmp);
       if (ok && getNames)
       {
         const char* velacc = idx == 1 ? "velocity" : "acceleration";
@@ -2457,6 +2459,9 @@ bool SIMoutput::evalResults (const Vectors& psol, const ResPointVec& gPoints,
       }
     }
 
+  if (ok)
+    ok = augmentColumns(sol1,patchSol1);
+
   if (myProblem->getNoFields(2) < 1 || !ok)
     return ok; // no secondary solution variables
 
-- 
2.43.0


From 836186d98ef7cd619cddf834d63f4d182a9d3bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:35 +0000
Subject: [PATCH 087/114] fix: the file name of result points given in the
 keyword format was lost

---
 src/SIM/SIMoutput.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index 0a13804..64382ce 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -395,6 +395,7 @@ bool SIMoutput::parse (char* keyWord, std::istream& is)
 
   char* cline = keyWord+12;
   int nres = atoi(strtok(cline," "));
+  myPoints = {{"",ResPointVec(nres,ResultPoint(3))}};
   if (nres > 0)
   {
     IFEM::cout <<"\nNumber of result points: "<< nres <<"\n";
@@ -402,7 +403,6 @@ bool SIMoutput::parse (char* keyWord, std::istream& is)
       this->setPointResultFile(cline);
   }
 
-  myPoints = {{"",ResPointVec(nres,ResultPoint(3))}};
   for (int i = 0; i < nres && (cline = utl::readLine(is)); i++)
   {
     ResultPoint& thePoint = myPoints.back().second[i];
-- 
2.43.0


From 3e44c11e3f4935fa132107ff81e892db2574894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:51 +0000
Subject: [PATCH 088/114] fix: mode shapes were scaled by the modal mass and
 not by its square root

---
 src/SIM/SIMbase.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index a1ca49c..5c2473a 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -2250,6 +2250,7 @@ bool Mode::orthonormalize (const SystemMatrix& mat)
     IFEM::cout <<" is already orthonormal."<< std::endl;
   else
   {
+    scale = sqrt(scale);
     eqnVec /= scale;
     eigVec /= scale;
     IFEM::cout <<": scale = "<< 1.0/scale << std::endl;
-- 
2.43.0


From ceb362b63a9584405eb318149870bc60b5842c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:41 +0000
Subject: [PATCH 089/114] fix: unconverged eigenvalues were returned as
 solutions

---
 src/Eig/eig_drv1.f | 11 +++++++++++
 src/Eig/eig_drv2.f | 11 +++++++++++
 src/Eig/eig_drv3.f | 11 +++++++++++
 src/Eig/eig_drv4.f | 11 +++++++++++
 src/Eig/eig_drv5.f | 11 +++++++++++
 src/Eig/eig_drv6.f | 11 +++++++++++
 6 files changed, 66 insertions(+)

diff --git a/src/Eig/eig_drv1.f b/src/Eig/eig_drv1.f
index 814db04..dfa9baf 100644
--- a/src/Eig/eig_drv1.f
+++ b/src/Eig/eig_drv1.f
@@ -227,6 +227,17 @@ c
      &        ' Arnoldi update, try increasing NCV.'
          print *, ' '
       end if
+c
+      if (iparam(5) .lt. nev) then
+c
+c        %------------------------------------------%
+c        | Some eigenvalues did not converge.       |
+c        | Return, since DSEUPD will reset the flag |
+c        %------------------------------------------%
+c
+         if (ierr .eq. 0) ierr = 1
+         return
+      end if
 c
 c     %-------------------------------------------%
 c     | No fatal errors occurred.                 |
diff --git a/src/Eig/eig_drv2.f b/src/Eig/eig_drv2.f
index cc0d114..81831fa 100644
--- a/src/Eig/eig_drv2.f
+++ b/src/Eig/eig_drv2.f
@@ -237,6 +237,17 @@ c
      &        ' Arnoldi update, try increasing NCV.'
          print *, ' '
       end if
+c
+      if (iparam(5) .lt. nev) then
+c
+c        %------------------------------------------%
+c        | Some eigenvalues did not converge.       |
+c        | Return, since DSEUPD will reset the flag |
+c        %------------------------------------------%
+c
+         if (ierr .eq. 0) ierr = 1
+         return
+      end if
 c
 c     %-------------------------------------------%
 c     | No fatal errors occurred.                 |
diff --git a/src/Eig/eig_drv3.f b/src/Eig/eig_drv3.f
index ecb3b98..6d52f30 100644
--- a/src/Eig/eig_drv3.f
+++ b/src/Eig/eig_drv3.f
@@ -257,6 +257,17 @@ c
      &        ' Arnoldi update, try increasing NCV.'
          print *, ' '
       end if
+c
+      if (iparam(5) .lt. nev) then
+c
+c        %------------------------------------------%
+c        | Some eigenvalues did not converge.       |
+c        | Return, since DSEUPD will reset the flag |
+c        %------------------------------------------%
+c
+         if (ierr .eq. 0) ierr = 1
+         return
+      end if
 c
 c     %-------------------------------------------%
 c     | No fatal errors occurred.                 |
diff --git a/src/Eig/eig_drv4.f b/src/Eig/eig_drv4.f
index 6d2a6a8..1d0d2db 100644
--- a/src/Eig/eig_drv4.f
+++ b/src/Eig/eig_drv4.f
@@ -286,6 +286,17 @@ c
      &        ' Arnoldi update, try increasing NCV.'
          print *, ' '
       end if
+c
+      if (iparam(5) .lt. nev) then
+c
+c        %------------------------------------------%
+c        | Some eigenvalues did not converge.       |
+c        | Return, since DSEUPD will reset the flag |
+c        %------------------------------------------%
+c
+         if (ierr .eq. 0) ierr = 1
+         return
+      end if
 c
 c     %-------------------------------------------%
 c     | No fatal errors occurred.                 |
diff --git a/src/Eig/eig_drv5.f b/src/Eig/eig_drv5.f
index 636f06c..cd77938 100644
--- a/src/Eig/eig_drv5.f
+++ b/src/Eig/eig_drv5.f
@@ -293,6 +293,17 @@ c
      &        ' Arnoldi update, try increasing NCV.'
          print *, ' '
       end if
+c
+      if (iparam(5) .lt. nev) then
+c
+c        %------------------------------------------%
+c        | Some eigenvalues did not converge.       |
+c        | Return, since DSEUPD will reset the flag |
+c        %------------------------------------------%
+c
+         if (ierr .eq. 0) ierr = 1
+         return
+      end if
 c
 c     %-------------------------------------------%
 c     | No fatal errors occurred.                 |
diff --git a/src/Eig/eig_drv6.f b/src/Eig/eig_drv6.f
index 58e5400..ce99cd5 100644
--- a/src/Eig/eig_drv6.f
+++ b/src/Eig/eig_drv6.f
@@ -296,6 +296,17 @@ c
      &        ' Arnoldi update, try increasing NCV.'
          print *, ' '
       end if
+c
+      if (iparam(5) .lt. nev) then
+c
+c        %------------------------------------------%
+c        | Some eigenvalues did not converge.       |
+c        | Return, since DSEUPD will reset the flag |
+c        %------------------------------------------%
+c
+         if (ierr .eq. 0) ierr = 1
+         return
+      end if
 c
 c     %-------------------------------------------%
 c     | No fatal errors occurred.                 |
-- 
2.43.0


From 285a672b47a0e6b74cd459d8e3696651a8387b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:41 +0000
Subject: [PATCH 090/114] fix: null pointer for eigenvalue problems with one
 matrix only

---
 src/Eig/EigSolver.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Eig/EigSolver.C b/src/Eig/EigSolver.C
index 183e9a5..fe4f65a 100644
--- a/src/Eig/EigSolver.C
+++ b/src/Eig/EigSolver.C
@@ -138,7 +138,7 @@ bool eig::solve (SystemMatrix* A, SystemMatrix* B,
   if (ierr < 2) return ierr == 1;
 
   A->compressPattern();
-  B->compressPattern();
+  if (B) B->compressPattern();
 
   K = A;
   M = B;
-- 
2.43.0


From db953f5b8791aa2f502575311b9d98d62e896ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 091/114] fix: the Cayley method always failed when a shift was
 specified

---
 src/Eig/EigSolver.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Eig/EigSolver.C b/src/Eig/EigSolver.C
index fe4f65a..e198cbc 100644
--- a/src/Eig/EigSolver.C
+++ b/src/Eig/EigSolver.C
@@ -182,7 +182,7 @@ bool eig::solve (SystemMatrix* A, SystemMatrix* B,
     break;
   case 6:
     AM = K->copy();
-    if (shift != 0.0 && AM->add(*M,-shift))
+    if (shift != 0.0 && !AM->add(*M,-shift))
       ierr = 123;
     else
       eig_drv6_(n,nev,ncv,shift,eigVal.ptr(),eigVec.ptr(),work,ierr);
-- 
2.43.0


From b2ef43ed334c37a98564f6fc6c30d3fd12d69a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 092/114] fix: the damping of the modes was ignored without
 Rayleigh damping

---
 src/SIM/SIMmodal.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SIM/SIMmodal.C b/src/SIM/SIMmodal.C
index dc2f1bf..513285c 100644
--- a/src/SIM/SIMmodal.C
+++ b/src/SIM/SIMmodal.C
@@ -184,7 +184,10 @@ bool SIMmodal::assembleModalSystem (const TimeDomain& time, const Vectors& mSol,
     if (beta > 0.0)
     {
       myElmMat = new NewmarkMats(0.0,0.0,beta,gamma);
-      myElmMat->resize(alpha1 > 0.0 || alpha2 > 0.0 ? 4 : 3, 1);
+      bool haveDamping = alpha1 > 0.0 || alpha2 > 0.0;
+      for (const Mode& m : myModes)
+        haveDamping |= m.damping > 0.0;
+      myElmMat->resize(haveDamping ? 4 : 3, 1);
     }
     else // quasi-static simulation
     {
-- 
2.43.0


From 2717aa2be20ef3ae305a8bea282d9311d6363f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:08 +0000
Subject: [PATCH 093/114] fix: the damping of the modes was lost on restart

---
 src/SIM/SIMmodal.C | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SIM/SIMmodal.C b/src/SIM/SIMmodal.C
index 513285c..f262a95 100644
--- a/src/SIM/SIMmodal.C
+++ b/src/SIM/SIMmodal.C
@@ -271,6 +271,8 @@ bool SIMmodal::saveModes (std::map<std::string,std::string>& data) const
       archive(mode.eigVal);
       archive(mode.eigVec);
     }
+    for (const Mode& mode : myModes)
+      archive(mode.damping);
   }
   data["ModalSIM"] = str.str();
   return true;
@@ -297,6 +299,10 @@ bool SIMmodal::restoreModes (const std::map<std::string,std::string>& data)
       archive(mode.eigVal);
       archive(mode.eigVec);
     }
+    // The modal damping is not present in data from older versions
+    if (str.peek() != std::stringstream::traits_type::eof())
+      for (Mode& mode : myModes)
+        archive(mode.damping);
     return true;
   }
 #endif
-- 
2.43.0


From 56e30f9f62e9089310ab20a891d1b562f50a2cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:08 +0000
Subject: [PATCH 094/114] fix: the frequency of a list of modes was applied to
 the last one only

---
 src/SIM/EigenModeSIM.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SIM/EigenModeSIM.C b/src/SIM/EigenModeSIM.C
index 9043d7f..55cfcde 100644
--- a/src/SIM/EigenModeSIM.C
+++ b/src/SIM/EigenModeSIM.C
@@ -61,6 +61,8 @@ bool EigenModeSIM::parse (const tinyxml2::XMLElement* elem)
       utl::parseIntegers(modes,value);
       utl::getAttribute(child,"scale",scale);
       std::sort(modes.begin(),modes.end());
+      if (modes.empty() || modes.front() < 1)
+        continue;
       imode = modes.back();
       if (imode > amplitude.size())
         amplitude.resize(imode,0.0);
@@ -70,7 +72,7 @@ bool EigenModeSIM::parse (const tinyxml2::XMLElement* elem)
       {
         amplitude[mode-1] = scale;
         if (freq > epsZ)
-          omega[imode-1] = 2.0*M_PI*freq;
+          omega[mode-1] = 2.0*M_PI*freq;
       }
     }
   }
-- 
2.43.0


From b88cc672161c32e27ab5d534b0795e3c80db400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:09 +0000
Subject: [PATCH 095/114] fix: the phase of an eigenmode history was lost on
 restart

---
 src/SIM/EigenModeSIM.C | 20 ++++++++++++++++++++
 src/SIM/EigenModeSIM.h |  7 +++++++
 2 files changed, 27 insertions(+)

diff --git a/src/SIM/EigenModeSIM.C b/src/SIM/EigenModeSIM.C
index 55cfcde..5ff87e1 100644
--- a/src/SIM/EigenModeSIM.C
+++ b/src/SIM/EigenModeSIM.C
@@ -175,3 +175,23 @@ SIM::ConvStatus EigenModeSIM::solveStep (TimeStep& param, SIM::SolutionMode,
   return this->solutionNorms(param.time,zero_tolerance,outPrec) ?
     SIM::CONVERGED : SIM::FAILURE;
 }
+
+
+bool EigenModeSIM::serialize (SerializeMap& data) const
+{
+  data[this->serialKey("EigenModeSIM::myStart")] =
+    SIMsolution::serialize(&myStart,1);
+
+  return this->MultiStepSIM::serialize(data);
+}
+
+
+bool EigenModeSIM::deSerialize (const SerializeMap& data)
+{
+  SerializeMap::const_iterator sit = this->findSerial(data,
+                                                      "EigenModeSIM::myStart");
+  if (sit != data.end())
+    SIMsolution::deSerialize(sit->second,&myStart,1);
+
+  return this->MultiStepSIM::deSerialize(data);
+}
diff --git a/src/SIM/EigenModeSIM.h b/src/SIM/EigenModeSIM.h
index cfcd728..3ab2813 100644
--- a/src/SIM/EigenModeSIM.h
+++ b/src/SIM/EigenModeSIM.h
@@ -51,6 +51,13 @@ public:
                                     double zero_tolerance,
                                     std::streamsize outPrec);
 
+  //! \brief Serialize internal state for restarting purposes.
+  //! \param data Container for serialized data
+  virtual bool serialize(SerializeMap& data) const;
+  //! \brief Set internal state from a serialized state.
+  //! \param[in] data Container for serialized data
+  virtual bool deSerialize(const SerializeMap& data);
+
 private:
   double              myStart;   //!< The start time of this simulator
   std::vector<Mode>   modes;     //!< Eigenmode shapes and frequencies
-- 
2.43.0


From eceac7eabe006bf9e3d14dd681816e9810a6212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:43 +0000
Subject: [PATCH 096/114] fix: norms following an empty norm group were lost or
 put in the wrong group

The first value after an empty group was added nowhere, and the array of norm
groups was accessed out of bounds if the last group was empty.
---
 src/ASM/GlbNorm.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ASM/GlbNorm.C b/src/ASM/GlbNorm.C
index b566870..9340746 100644
--- a/src/ASM/GlbNorm.C
+++ b/src/ASM/GlbNorm.C
@@ -47,9 +47,9 @@ bool GlbNorm::assemble (const LocalIntegral* elmObj, int elmId)
   size_t i, j, k;
   for (i = j = k = 0; i < elVals.size(); i++)
   {
-    if (j >= myVals[k].size())
+    while (k < myVals.size() && j >= myVals[k].size())
       k++, j = 0;
-    if (k < myVals.size() && j < myVals[k].size())
+    if (k < myVals.size())
       myVals[k][j++] += elVals[i];
     this->applyFinalOp(elVals[i]);
   }
-- 
2.43.0


From dd52c214318260dcb2784bbe8738a20b165a7847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:43 +0000
Subject: [PATCH 097/114] fix: norm groups of missing projections kept the
 values of an earlier call

and the map of projection methods was accessed out of bounds if it had less
entries than there are projected solutions.
---
 src/SIM/SIMbase.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index 5c2473a..9eb0379 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -1978,7 +1978,8 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
   // 5) associated with an additional group defined in the integrand
   for (size_t i = 0; i < gNorm.size(); i++)
     if (i == 0 || i > ssol.size() || !ssol[i-1].empty() ||
-        proj_idx->first == SIMoptions::NONE || norm->hasExternalProjections())
+        (proj_idx != opt.project.end() &&
+         proj_idx->first == SIMoptions::NONE) || norm->hasExternalProjections())
     {
       size_t nNrm = norm->getNoFields(1+i);
       gNorm[i].resize(nNrm,true);
@@ -1986,6 +1987,8 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
       if (i > 0 && proj_idx != opt.project.end())
         ++proj_idx;
     }
+    else
+      gNorm[i].clear(); // remove values from an earlier call, if any
 
   GlbNorm globalNorm(gNorm,norm->getFinalOperation());
   LintegralVec elementNorms;
-- 
2.43.0


From a1741cba4e47ce2eac5593d93344ff66b927a269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:43 +0000
Subject: [PATCH 098/114] fix: projected solutions on a separate basis were
 taken from the wrong place

The offset to the values of a patch was advanced for each projection, and each
time the same patch was visited, when integrating the solution norms.
---
 src/SIM/SIMbase.C | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index 9eb0379..a1a7621 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -1893,15 +1893,20 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
 
     size_t nfld = myProblem->getNoFields(2);
     size_t nval = pch->getNoProjectionNodes()*nfld;
+    size_t nofs = 0; // offset to the projected values of this patch
+    if (this->fieldProjections())
+      for (int i = 0; i < pidx-1; i++)
+        if (!myModel[i]->empty())
+          nofs += myModel[i]->getNoProjectionNodes()*nfld;
+
     for (size_t k = 0; k < ssol.size(); k++)
       if (ssol[k].empty())
         norm->getProjection(k).clear();
       else if (this->fieldProjections())
       {
         Vector c(nval);
-        std::copy(ssol[k].begin()+nCmp,ssol[k].begin()+nCmp+nval,c.begin());
+        std::copy(ssol[k].begin()+nofs,ssol[k].begin()+nofs+nval,c.begin());
         norm->setProjectedFields(pch->getProjectedFields(c,nfld),k);
-        nCmp += nval;
       }
       else if (nCmp != pch->getNoFields(1) && pch->getNoFields(2) > 0)
       {
-- 
2.43.0


From 1f6cb81b80b13361b353f26e9f0e79ebf4fc311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:05 +0000
Subject: [PATCH 099/114] fix: boundary norms used the element group and
 material visited last

The boundary terms of the solution norms were evaluated with the material of
the patch visited last, and for the elements of the last element set only,
unlike in the assembly of the equation system.
---
 src/SIM/SIMbase.C | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index a1a7621..fda37ea 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -2038,6 +2038,16 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
       if (!myModel[lp]->empty())
         ok = assembleNorms(norm,globalNorm,myModel[lp],1+lp);
 
+  // Lambda function for initializing the material (if any) of a given patch
+  auto&& initPatchMaterial = [this](size_t patch)
+  {
+    for (const Property& q : myProps)
+      if (q.pcode == Property::MATERIAL && q.patch == patch)
+        return this->initMaterial(q.pindx);
+    return true;
+  };
+
+  norm->activateElmGroup();
   if (norm->hasBoundaryTerms())
     for (p = myProps.begin(); p != myProps.end() && ok; ++p)
       if (p->pcode == Property::NEUMANN)
@@ -2045,6 +2055,8 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
           ok = false;
         else if (pch->empty())
           continue;
+        else if (!initPatchMaterial(p->patch))
+          ok = false;
         else if (abs(p->ldim)+1 == pch->getNoParamDim())
           if (this->initNeumann(p->pindx))
           {
-- 
2.43.0


From 5666bb25841615ab306c90e9dd1de94298100e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:38 +0000
Subject: [PATCH 100/114] fix: the projected solutions of another patch were
 used in boundary norms

The projections were not extracted for the patch of the boundary, such that
those of the patch visited last were used.
---
 src/SIM/SIMbase.C | 74 ++++++++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 30 deletions(-)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index fda37ea..89add2a 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -1845,10 +1845,44 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
 
   size_t nCmp = 0;
 
+  // Lambda function for extracting the projected solutions for a given patch
+  auto&& extractProjections = [this,&ssol,&nCmp](NormBase* norm,
+                                                 ASMbase* pch, int pidx)
+  {
+    size_t nfld = myProblem->getNoFields(2);
+    size_t nval = pch->getNoProjectionNodes()*nfld;
+    size_t nofs = 0; // offset to the projected values of this patch
+    if (this->fieldProjections())
+      for (int i = 0; i < pidx-1; i++)
+        if (!myModel[i]->empty())
+          nofs += myModel[i]->getNoProjectionNodes()*nfld;
+
+    for (size_t k = 0; k < ssol.size(); k++)
+      if (ssol[k].empty())
+        norm->getProjection(k).clear();
+      else if (this->fieldProjections())
+      {
+        Vector c(nval);
+        std::copy(ssol[k].begin()+nofs,ssol[k].begin()+nofs+nval,c.begin());
+        norm->setProjectedFields(pch->getProjectedFields(c,nfld),k);
+      }
+      else if (nCmp != pch->getNoFields(1) && pch->getNoFields(2) > 0)
+      {
+        // Mixed problem using first basis for projection,
+        // need a separate MADOF array with nCmp dofs per node
+        const IntVec& madof = this->getMADOF(1,nCmp);
+        pch->extractNodalVec(ssol[k],norm->getProjection(k),
+                             madof.data(),madof.size());
+      }
+      else
+        pch->extractNodeVec(ssol[k],norm->getProjection(k),nCmp,1);
+  };
+
   // Lambda function for assembling the interior norm terms for a given patch
-  auto&& assembleNorms = [this,time,psol,ssol,&nCmp](NormBase* norm,
-                                                     GlbNorm& integral,
-                                                     ASMbase* pch, int pidx)
+  auto&& assembleNorms = [this,time,psol,&extractProjections](NormBase* norm,
+                                                              GlbNorm& integral,
+                                                              ASMbase* pch,
+                                                              int pidx)
   {
     if (!integral.haveContributions(pidx,myProps))
       return true;
@@ -1891,33 +1925,7 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
       }
     }
 
-    size_t nfld = myProblem->getNoFields(2);
-    size_t nval = pch->getNoProjectionNodes()*nfld;
-    size_t nofs = 0; // offset to the projected values of this patch
-    if (this->fieldProjections())
-      for (int i = 0; i < pidx-1; i++)
-        if (!myModel[i]->empty())
-          nofs += myModel[i]->getNoProjectionNodes()*nfld;
-
-    for (size_t k = 0; k < ssol.size(); k++)
-      if (ssol[k].empty())
-        norm->getProjection(k).clear();
-      else if (this->fieldProjections())
-      {
-        Vector c(nval);
-        std::copy(ssol[k].begin()+nofs,ssol[k].begin()+nofs+nval,c.begin());
-        norm->setProjectedFields(pch->getProjectedFields(c,nfld),k);
-      }
-      else if (nCmp != pch->getNoFields(1) && pch->getNoFields(2) > 0)
-      {
-        // Mixed problem using first basis for projection,
-        // need a separate MADOF array with nCmp dofs per node
-        const IntVec& madof = this->getMADOF(1,nCmp);
-        pch->extractNodalVec(ssol[k],norm->getProjection(k),
-                             madof.data(),madof.size());
-      }
-      else
-        pch->extractNodeVec(ssol[k],norm->getProjection(k),nCmp,1);
+    extractProjections(norm,pch,pidx);
 
     norm->initForPatch(pch);
 
@@ -2061,7 +2069,10 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
           if (this->initNeumann(p->pindx))
           {
             if (p->patch != lp)
+            {
               ok = this->extractPatchSolution(psol,p->patch-1);
+              extractProjections(norm,pch,p->patch);
+            }
             norm->initForPatch(pch);
             if (mySol)
               mySol->initPatch(pch->idx);
@@ -2075,7 +2086,10 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
           if (this->initNeumann(p->pindx))
           {
             if (p->patch != lp)
+            {
               ok = this->extractPatchSolution(psol,p->patch-1);
+              extractProjections(norm,pch,p->patch);
+            }
             norm->initForPatch(pch);
             if (mySol)
               mySol->initPatch(pch->idx);
-- 
2.43.0


From 98755ed9cf0522958a7e5e1accb39dfb5371a3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:38 +0000
Subject: [PATCH 101/114] fix: projected solutions of the patches following an
 inactive one were shifted

when projecting onto a separate basis.
---
 src/SIM/SIMbase.C | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index 89add2a..b064467 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -2358,8 +2358,16 @@ bool SIMbase::project (Matrix& ssol, const Vector& psol,
   {
     LocalSystem::patch = idx++; // Hack: For patch-wise max-value calculation
 
-    if (pch->empty() || pch->inActive(time.t))
-      continue; // skip empty or inactive patches
+    if (pch->empty())
+      continue; // skip empty patches
+
+    if (pch->inActive(time.t))
+    {
+      // Skip inactive patches
+      if (this->fieldProjections())
+        ofs += pch->getNoProjectionNodes();
+      continue;
+    }
 
     // Extract the primary solution control point values for this patch
     if (!this->extractPatchSolution(myProblem,{psol},idx-1))
-- 
2.43.0


From 2ba2a98ef33e684d0bf112cd3c361ef795553478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:38 +0000
Subject: [PATCH 102/114] fix: nodal forces were added once for each boundary
 the patch has

The nodal forces are found by integrating the interior of the patches having
the specified boundary, which was done several times for those with more than
one edge or face, etc., in it.
---
 src/SIM/ForceIntegrator.C | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/SIM/ForceIntegrator.C b/src/SIM/ForceIntegrator.C
index 57ada23..95f5457 100644
--- a/src/SIM/ForceIntegrator.C
+++ b/src/SIM/ForceIntegrator.C
@@ -18,6 +18,7 @@
 #include "GlbForceVec.h"
 #include "Vec3.h"
 #include "Profiler.h"
+#include <set>
 
 
 Vector SIM::getBoundaryForce (const Vectors& solution, SIMbase* model, int code,
@@ -112,6 +113,7 @@ bool SIM::integrate (const Vectors& solution, SIMbase* model, int code,
 
   bool ok = true;
   size_t prevPatch = 0;
+  std::set<size_t> visited; // patches whose interior has been integrated
   PropertyVec::const_iterator p;
   for (p = model->begin_prop(); p != model->end_prop() && ok; ++p)
     if (abs(p->pindx) == code)
@@ -127,10 +129,10 @@ bool SIM::integrate (const Vectors& solution, SIMbase* model, int code,
           ok = model->extractPatchSolution(solution,p->patch-1);
           model->setPatchMaterial(p->patch);
         }
-        if (forceInt->hasInteriorTerms())
-          ok &= patch->integrate(*forceInt,frc,time);
-        else
+        if (!forceInt->hasInteriorTerms())
           ok &= patch->integrate(*forceInt,abs(p->lindx),frc,time);
+        else if (visited.insert(p->patch).second)
+          ok &= patch->integrate(*forceInt,frc,time);
         prevPatch = p->patch;
       }
     }
-- 
2.43.0


From cb681629fdf47998e656fe25b56a274c9c8d2100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:38 +0000
Subject: [PATCH 103/114] fix: functions were projected at wrong points for
 shell and beam patches

The number of parameter directions is to be used and not the space dimension.
---
 src/ASM/GlbL2projector.C | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ASM/GlbL2projector.C b/src/ASM/GlbL2projector.C
index 3367335..2bb8c02 100644
--- a/src/ASM/GlbL2projector.C
+++ b/src/ASM/GlbL2projector.C
@@ -143,9 +143,9 @@ bool L2FuncIntegrand::evaluate (Matrix& sField, const RealArray* gpar) const
   std::array<RealArray,3> expanded;
   if (!dynamic_cast<const ASMunstruct*>(&m_patch))
   {
-    if (m_patch.getNoSpaceDim() == 2)
+    if (m_patch.getNoParamDim() == 2)
       gpar = expandTensorGrid2(gpar, expanded.data());
-    else if (m_patch.getNoSpaceDim() == 3)
+    else if (m_patch.getNoParamDim() == 3)
       gpar = expandTensorGrid3(gpar, expanded.data());
   }
 
@@ -158,7 +158,7 @@ bool L2FuncIntegrand::evaluate (Matrix& sField, const RealArray* gpar) const
   double param[3]; // Actual domain parameters to be used for evaluation
   Vec4   X(param,myTime);
   for (size_t i = 0; i < gpar[0].size(); ++i) {
-    for (size_t j = 0; j < 3 && j < m_patch.getNoSpaceDim(); ++j)
+    for (size_t j = 0; j < 3 && j < m_patch.getNoParamDim(); ++j)
       xi[j] = u[j][0] + gpar[j][i] / (u[j][1] - u[j][0]);
     m_patch.evalPoint(xi, param, X);
     sField.fillColumn(i+1, m_func.getValue(X));
-- 
2.43.0


From 4ac57e0be3591b757a5926b8e452928a1dad7121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:38 +0000
Subject: [PATCH 104/114] fix: functions were projected at wrong points when
 the domain is not [0,1]

---
 src/ASM/GlbL2projector.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ASM/GlbL2projector.C b/src/ASM/GlbL2projector.C
index 2bb8c02..20f611e 100644
--- a/src/ASM/GlbL2projector.C
+++ b/src/ASM/GlbL2projector.C
@@ -159,7 +159,7 @@ bool L2FuncIntegrand::evaluate (Matrix& sField, const RealArray* gpar) const
   Vec4   X(param,myTime);
   for (size_t i = 0; i < gpar[0].size(); ++i) {
     for (size_t j = 0; j < 3 && j < m_patch.getNoParamDim(); ++j)
-      xi[j] = u[j][0] + gpar[j][i] / (u[j][1] - u[j][0]);
+      xi[j] = (gpar[j][i] - u[j][0]) / (u[j][1] - u[j][0]);
     m_patch.evalPoint(xi, param, X);
     sField.fillColumn(i+1, m_func.getValue(X));
   }
-- 
2.43.0


From f6fdf4241efc84e53c8fb698304fd12c13f47970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:55 +0000
Subject: [PATCH 105/114] fix: data race on the non-zero flag of the
 L2-projection matrix

---
 src/LinAlg/SystemMatrix.C | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/SystemMatrix.C b/src/LinAlg/SystemMatrix.C
index ae6703c..807fd75 100644
--- a/src/LinAlg/SystemMatrix.C
+++ b/src/LinAlg/SystemMatrix.C
@@ -184,7 +184,12 @@ void SystemMatrix::initNonZeroEqs ()
 bool SystemMatrix::flagNonZeroEq (int ieq)
 {
   if (nonZeroEqs.size() == 1)
-    nonZeroEqs.front() = true;
+  {
+    // All threads are using the same flag
+    char& nonZero = nonZeroEqs.front();
+#pragma omp atomic write
+    nonZero = true;
+  }
   else if (ieq == 0)
     std::fill(nonZeroEqs.begin(),nonZeroEqs.end(),true);
   else if (ieq < 0 || ieq > static_cast<int>(nonZeroEqs.size()))
-- 
2.43.0


From 46c3f1e3019e74e88ea77a09f33b3e4a94ed77a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:54 +0000
Subject: [PATCH 106/114] fix: the external energy was accumulated also when
 the norm integration failed

The contribution of the step was thereby added twice if it was repeated.
---
 src/SIM/SIMbase.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index b064467..038b4cf 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -2115,7 +2115,7 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
   }
 
   // Add problem-dependent external norm contributions
-  norm->addBoundaryTerms(gNorm,this->externalEnergy(psol,time));
+  if (ok) norm->addBoundaryTerms(gNorm,this->externalEnergy(psol,time));
 
   if (!extrFunc.empty()) // Make room for extraction function domain volumes
     gNorm.resize(norm->getNoFields(0)+1,Vector(extrFunc.size()));
-- 
2.43.0


From 7cea20e5e4078784e110d8db4ad94bdd1eda0f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:12 +0000
Subject: [PATCH 107/114] fix: memory error when adapting on a norm that does
 not exist

The norm index given by the user was used unchecked, also when the problem
has no norms at all.
---
 src/SIM/AdaptiveSetup.C | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/SIM/AdaptiveSetup.C b/src/SIM/AdaptiveSetup.C
index f9bf431..396e5e2 100644
--- a/src/SIM/AdaptiveSetup.C
+++ b/src/SIM/AdaptiveSetup.C
@@ -235,12 +235,23 @@ bool AdaptiveSetup::initPrm (size_t normGroup)
 
   // Calculate row index in eNorm of the quantity to base the adaptation on
   eRow = adNorm;
-  NormBase* norm = model.getNormIntegrand();
-  for (iGroup = 1; iGroup <= adaptor; iGroup++)
-    eRow += norm->getNoFields(iGroup);
-  delete norm;
+  size_t nNorm = 0;
+  if (NormBase* norm = model.getNormIntegrand(); norm)
+  {
+    norm->initProjection(model.opt.project.size());
+    for (iGroup = 1; iGroup <= adaptor; iGroup++)
+      eRow += norm->getNoFields(iGroup);
+    nNorm = norm->getNoFields(1+adaptor);
+    delete norm;
+  }
 
-  return true;
+  if (adNorm <= nNorm)
+    return true;
+
+  std::cerr <<" *** AdaptiveSetup::initPrm: Norm index "<< adNorm
+            <<" is out of range [1,"<< nNorm <<"] for norm group "
+            << adaptor <<"."<< std::endl;
+  return false;
 }
 
 
-- 
2.43.0


From b75696e15277abd3d0c5954a7df80d87d1113f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:12 +0000
Subject: [PATCH 108/114] fix: memory error when the threshold leaves nothing,
 or too much, to refine

The refinement percentage was in addition truncated to an integer, such that
values below 1 always refined nothing.
---
 src/SIM/AdaptiveSetup.C | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/SIM/AdaptiveSetup.C b/src/SIM/AdaptiveSetup.C
index 396e5e2..787897c 100644
--- a/src/SIM/AdaptiveSetup.C
+++ b/src/SIM/AdaptiveSetup.C
@@ -397,14 +397,22 @@ int AdaptiveSetup::calcRefinement (LR::RefineData& prm, int iStep,
   // The variable prm.elements will contain one of the following:
   // - list of elements to be refined (if fullspan or minspan)
   // - list of basis functions to be refined (if structured mesh)
-  const ErrorInfo info = errorLimits(error, prm.options[0], threshold);
+  const double percent = betaFunc ? (*betaFunc)(iStep-1) : beta;
+  const ErrorInfo info = errorLimits(error, percent, threshold);
 
   if (threshold == NONE || threshold == SYMMETRIZED)
-    refineSize = ceil(error.size()*prm.options[0]/100.0);
+    refineSize = ceil(error.size()*std::min(std::max(percent,0.0),100.0)/100.0);
   else
     refineSize = std::upper_bound(error.begin(), error.end(), DblIdx(info.limit,0),
                                   std::greater_equal<DblIdx>()) - error.begin();
 
+  if (refineSize < 1)
+  {
+    IFEM::cout <<"\n   * Stopping the adaptive cycles as no errors are above"
+               <<" the refinement threshold."<< std::endl;
+    return 0;
+  }
+
   if (threshold == SYMMETRIZED)
   {
     double fErr = error[refineSize-1].first;
@@ -437,22 +445,22 @@ int AdaptiveSetup::calcRefinement (LR::RefineData& prm, int iStep,
 
   switch (threshold) {
   case NONE:
-    IFEM::cout << prm.options[0] <<"% of all "<< str;
+    IFEM::cout << percent <<"% of all "<< str;
     break;
   case SYMMETRIZED:
     IFEM::cout << 100.0*refineSize/error.size() <<"% of all "<< str;
     break;
   case MAXIMUM:
-    IFEM::cout << prm.options[0] <<"% of max error ("<< info.limit <<")";
+    IFEM::cout << percent <<"% of max error ("<< info.limit <<")";
     break;
   case AVERAGE:
-    IFEM::cout << prm.options[0] <<"% of average error ("<< info.limit <<")";
+    IFEM::cout << percent <<"% of average error ("<< info.limit <<")";
     break;
   case MINIMUM:
-    IFEM::cout << prm.options[0] <<"% of min error ("<< info.limit <<")";
+    IFEM::cout << percent <<"% of min error ("<< info.limit <<")";
     break;
   case DORFEL:
-    IFEM::cout << prm.options[0] <<"% of total error ("<< info.limit <<")";
+    IFEM::cout << percent <<"% of total error ("<< info.limit <<")";
     break;
   default:
     break;
-- 
2.43.0


From 953da4526706beb4ed35570ecf82410ed309ef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:12 +0000
Subject: [PATCH 109/114] fix: the first element was not refined when its error
 equals the threshold

---
 src/SIM/AdaptiveSetup.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/AdaptiveSetup.C b/src/SIM/AdaptiveSetup.C
index 787897c..9fdb328 100644
--- a/src/SIM/AdaptiveSetup.C
+++ b/src/SIM/AdaptiveSetup.C
@@ -403,7 +403,7 @@ int AdaptiveSetup::calcRefinement (LR::RefineData& prm, int iStep,
   if (threshold == NONE || threshold == SYMMETRIZED)
     refineSize = ceil(error.size()*std::min(std::max(percent,0.0),100.0)/100.0);
   else
-    refineSize = std::upper_bound(error.begin(), error.end(), DblIdx(info.limit,0),
+    refineSize = std::upper_bound(error.begin(), error.end(), DblIdx(info.limit,-1),
                                   std::greater_equal<DblIdx>()) - error.begin();
 
   if (refineSize < 1)
-- 
2.43.0


From a7c431c3cba01f987e70d4095e6749031650eed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:12 +0000
Subject: [PATCH 110/114] fix: wrong dual error estimates when there are
 several projections

The dual solution is projected for one of the norm groups only, but the
element norms were accessed as if all norm groups were present.
---
 src/SIM/AdaptiveSIM.C | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/SIM/AdaptiveSIM.C b/src/SIM/AdaptiveSIM.C
index 9890b3b..432f133 100644
--- a/src/SIM/AdaptiveSIM.C
+++ b/src/SIM/AdaptiveSIM.C
@@ -157,14 +157,20 @@ bool AdaptiveSIM::solveStep (const char* inputfile, int iStep, bool withRF,
     if (!model.solutionNorms(solution[1],projd,fNorm,dNorm))
       return failure();
 
-    if (eRow <= fNorm.rows() && eRow <= eNorm.rows())
+    // Find the row in fNorm of the quantity to base the adaptation on, as the
+    // dual solution is projected only for the norm group that is used here
+    size_t fRow = adNorm;
+    for (size_t i = 0; i < adaptor && i < dNorm.size(); i++)
+      fRow += dNorm[i].size();
+
+    if (fRow <= fNorm.rows() && eRow <= eNorm.rows())
     {
       // Calculate refinement indicators including the dual error estimates.
       // Store in the 2nd row in fNorm (normally holding the external energy).
       // Store the associated global norm in the dNorm array.
       dNorm.front()(2) = 0.0;
       for (size_t j = 1; j <= eNorm.cols() && j <= fNorm.cols(); j++)
-        dNorm.front()(2) += fNorm(2,j) = eNorm(eRow,j)*fNorm(eRow,j);
+        dNorm.front()(2) += fNorm(2,j) = eNorm(eRow,j)*fNorm(fRow,j);
     }
   }
 
-- 
2.43.0


From e0e937689333fa8ea647eb9d142b4b1e3f60313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:12 +0000
Subject: [PATCH 111/114] fix: undetected NaN in the dual solution of an
 adaptive simulation

---
 src/SIM/AdaptiveSIM.C | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/SIM/AdaptiveSIM.C b/src/SIM/AdaptiveSIM.C
index 432f133..674eb7b 100644
--- a/src/SIM/AdaptiveSIM.C
+++ b/src/SIM/AdaptiveSIM.C
@@ -73,7 +73,7 @@ bool AdaptiveSIM::assembleAndSolveSystem ()
   for (size_t i = 0; i < solution.size(); i++)
     if (!model.solveSystem(solution[i],printSol,&rCond,"displacement",i))
       return false;
-    else if (i == 0)
+    else
     {
       for (double value : solution[i])
         if (std::isnan(value))
@@ -81,9 +81,10 @@ bool AdaptiveSIM::assembleAndSolveSystem ()
           std::cerr <<" *** Solution contains NaN, aborting..."<< std::endl;
           return false;
         }
+
+      if (i > 0 && solution.size() > 2)
+        printSol = 0; // Print summary only for the first two solutions
     }
-    else if (solution.size() > 2)
-      printSol = 0; // Print summary only for the first two solutions
 
   return true;
 }
-- 
2.43.0


From 1386af3a2387903c01737f605bb051b1321d3805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:12 +0000
Subject: [PATCH 112/114] fix: buffer overflow in the names of mesh files

For the adaptive cycles from 1000, and for long file names.
---
 src/SIM/AdaptiveSetup.C | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/SIM/AdaptiveSetup.C b/src/SIM/AdaptiveSetup.C
index 9fdb328..ff10c87 100644
--- a/src/SIM/AdaptiveSetup.C
+++ b/src/SIM/AdaptiveSetup.C
@@ -425,8 +425,8 @@ int AdaptiveSetup::calcRefinement (LR::RefineData& prm, int iStep,
   if (!errPrefix.empty())
   {
     // need to be atleast 17 chars to quell compiler warning for some reason..
-    char suffix[17] = {0};
-    sprintf(suffix,"_%03d.txt",iStep-1);
+    char suffix[24] = {0};
+    snprintf(suffix,sizeof(suffix),"_%03d.txt",iStep-1);
     std::ofstream of(errPrefix+suffix);
     of.precision(16);
     of <<"# Index   Error\n";
@@ -549,8 +549,8 @@ bool AdaptiveSetup::writeMesh (int iStep) const
   if (storeMesh%2)
   {
     // Write all patches to the same file
-    char suffix[8];
-    sprintf(suffix,"_%03d.lr",iStep);
+    char suffix[24];
+    snprintf(suffix,sizeof(suffix),"_%03d.lr",iStep);
     std::ofstream os(mshPrefix+suffix);
     model.dumpGeometry(os);
   }
@@ -558,11 +558,11 @@ bool AdaptiveSetup::writeMesh (int iStep) const
   if (storeMesh > 2)
     for (ASMbase* pch : model.getFEModel())
     {
-      char patchFile[256];
+      char suffix[24];
+      snprintf(suffix,sizeof(suffix),"_%03d",iStep);
+      std::string patchFile(mshPrefix+suffix);
       if (model.getNoPatches() > 1)
-        sprintf(patchFile,"%zu_%s_%03d",pch->idx+1,mshPrefix.c_str(),iStep);
-      else
-        sprintf(patchFile,"%s_%03d",mshPrefix.c_str(),iStep);
+        patchFile.insert(0,std::to_string(pch->idx+1)+"_");
       dynamic_cast<ASMunstruct*>(pch)->storeMesh(patchFile,storeMesh/2);
     }
 
-- 
2.43.0


From 618f4e0fd25f059c189a825610e03641bb286332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:23 +0000
Subject: [PATCH 113/114] fix: the minimum element size was rounded off when
 restarting

Elements of about that size might then be refined differently.
---
 src/SIM/SIMinput.C | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index 09f3526..97bf7d4 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -1900,8 +1900,10 @@ bool SIMinput::saveBasis (SerializeMap& data) const
 
   std::ostringstream str;
   str << isRefined <<" "<< myModel.size();
+  std::streamsize oldPrec = str.precision(17);
   for (const ASMbase* pch : myModel)
     str <<" "<< pch->getMinimumSize();
+  str.precision(oldPrec);
   for (const ASMbase* pch : myModel)
     pch->write(str);
   data[this->getName()+"::basis"] = str.str();
-- 
2.43.0


From 61d54dc3d93bcd9165ec5f5255e75288cf20f1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:14 +0000
Subject: [PATCH 114/114] fix: restart from a too old level when failing to
 list all levels

---
 src/Utility/HDF5Restart.C | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Utility/HDF5Restart.C b/src/Utility/HDF5Restart.C
index c5ddc62..0f5c608 100644
--- a/src/Utility/HDF5Restart.C
+++ b/src/Utility/HDF5Restart.C
@@ -235,7 +235,12 @@ int HDF5Restart::readData (SerializeData& data, int level, bool basis)
     };
 
     int idx = 0;
-    H5Giterate(m_file, "/", &idx, find_last_level, &level);
+    if (H5Giterate(m_file, "/", &idx, find_last_level, &level) < 0)
+    {
+      // Don't use the levels found before the failure, there may be later ones
+      this->closeFile();
+      return -1;
+    }
   }
 
   std::stringstream str;
-- 
2.43.0

