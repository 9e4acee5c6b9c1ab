From b719e8bd84044296354b579afebd273da960f21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 01/63] fix: EPDL97 interpolation search kept state shared
 between calls and threads

---
 src/fisx_epdl97.cpp | 66 +++++++++++++--------------------------------
 1 file changed, 19 insertions(+), 47 deletions(-)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index b19f6d9..d696faa 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -30,6 +30,7 @@
 #include <stdexcept>
 #include <iostream>
 #include <math.h>
+#include <algorithm>
 // #include <ctime>
 
 namespace fisx
@@ -777,65 +778,36 @@ std::string EPDL97::toUpperCaseString(const std::string & str) const
 
 std::pair<long, long> EPDL97::getInterpolationIndices(const std::vector<double> & vec, const double & x) const
 {
-    static long lastI0 = 0L;
-    std::vector<double>::size_type length, iMin, iMax, distance;
-    int counter;
+    // no state is kept between calls: the answer has to depend only on the arguments
+    // and the method can be called simultaneously from several threads
+    long iMin, iMax;
     std::pair<long, long> result;
+    std::vector<double>::const_iterator c_it;
 
-    // try if last point is of any use
-    length = vec.size();
-    if (lastI0 >= (int) length)
+    if (vec.size() < 2)
     {
-        lastI0 = (long) (length - 1);
+        result.first = 0L;
+        result.second = 0L;
+        return result;
     }
-    if (x < vec[lastI0])
+
+    c_it = std::lower_bound(vec.begin(), vec.end(), x);
+    if (c_it == vec.end())
     {
-        iMax = lastI0;
-        iMin = 0;
+        iMax = (long) (vec.size() - 1);
     }
     else
     {
-        iMin = lastI0;
-        iMax = length - 1;
-        // try a point that is close?
-        if ((length - iMin) > 21)
+        iMax = (long) (c_it - vec.begin());
+        if (iMax < 1)
         {
-            lastI0 = (long) (iMin + 20);
-            if (x < vec[lastI0])
-            {
-                iMax = lastI0;
-            }
+            iMax = 1;
         }
     }
+    iMin = iMax - 1;
 
-    counter = 0;
-    distance = iMax - iMin;
-    while (distance > 1)
-    {
-        // divide the distance by two
-        if (distance > 2)
-        {
-            distance = distance >> 1;
-        }
-        else
-        {
-            distance -= 1;
-        }
-        lastI0 = (long) (iMin + distance);
-        if (x > vec[lastI0])
-        {
-            iMin = lastI0;
-        }
-        else
-        {
-            iMax = lastI0;
-        }
-        distance = iMax - iMin;
-        counter++;
-    }
-    // std::cout << "Needed " << counter << " iterations " << std::endl;
-    result.first = (long) iMin;
-    result.second = (long) iMax;
+    result.first = iMin;
+    result.second = iMax;
     return result;
 }
 
-- 
2.43.0


From ec6a0f2a5ddfea9e86c02b1c23b984baa81f5013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 02/63] fix: Shell setters left a half updated shell behind on
 failure

---
 src/fisx_shell.cpp | 47 +++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/fisx_shell.cpp b/src/fisx_shell.cpp
index 3790d33..4f58a5a 100644
--- a/src/fisx_shell.cpp
+++ b/src/fisx_shell.cpp
@@ -145,16 +145,22 @@ void Shell::setNonradiativeTransitions(std::vector<std::string> labels, std::vec
 {
     std::vector<int>::size_type i;
 
-    if (this->nonradiativeTransitions.size() > 0)
+    if (labels.size() != values.size())
     {
-        // empty current list
-        this->nonradiativeTransitions.clear();
+        throw std::invalid_argument("Number of transition labels does not match number of values");
     }
+
+    // work on a copy, a failure should leave this instance untouched
+    Shell updated(*this);
+    updated.nonradiativeTransitions.clear();
     for (i = 0; i != labels.size(); i++)
     {
-        this->nonradiativeTransitions[this->toUpperCaseString(labels[i])] = values[i];
+        updated.nonradiativeTransitions[this->toUpperCaseString(labels[i])] = values[i];
     }
-    this->_updateNonradiativeRatios();
+    updated._updateNonradiativeRatios();
+    this->nonradiativeTransitions.swap(updated.nonradiativeTransitions);
+    this->augerRatios.swap(updated.augerRatios);
+    this->costerKronigRatios.swap(updated.costerKronigRatios);
 }
 
 void Shell::setNonradiativeTransitions(std::map<std::string, double> inputMap)
@@ -194,11 +200,15 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
 {
     std::string tmpString;
     std::vector<int>::size_type i;
-    if (this->radiativeTransitions.size() > 0)
+
+    if (labels.size() != values.size())
     {
-        // empty current list
-        this->radiativeTransitions.clear();
+        throw std::invalid_argument("Number of transition labels does not match number of values");
     }
+
+    // work on a copy, a failure should leave this instance untouched
+    Shell updated(*this);
+    updated.radiativeTransitions.clear();
     for (i = 0; i != labels.size(); i++)
     {
         tmpString = this->toUpperCaseString(labels[i]);
@@ -222,7 +232,7 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
                 // energy will not be derived from the binding energies
                 // PyMca was deriving the energy skipping the last digit.
                 // std::cout << "setting key" << tmpString.substr(0, 4) << std::endl;
-                this->radiativeTransitions[tmpString.substr(0, 4)] = values[i];
+                updated.radiativeTransitions[tmpString.substr(0, 4)] = values[i];
                 // other alternative would be to generate two keys with half
                 // the rate as being closer to the real stuff. Nevertheless,
                 // both transitions would most likely be mixed due to the
@@ -239,13 +249,13 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
         {
             if (tmpString.substr(0, this->name.size()) == this->name)
             {
-                this->radiativeTransitions[tmpString] = values[i];
+                updated.radiativeTransitions[tmpString] = values[i];
             }
             else
             {
                 if(tmpString == "TOTAL")
                 {
-                    this->radiativeTransitions[tmpString] = values[i];
+                    updated.radiativeTransitions[tmpString] = values[i];
                 }
                 else
                 {
@@ -255,7 +265,9 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
             }
         }
     }
-    this->_updateFluorescenceRatios();
+    updated._updateFluorescenceRatios();
+    this->radiativeTransitions.swap(updated.radiativeTransitions);
+    this->fluorescenceRatios.swap(updated.fluorescenceRatios);
 }
 
 void Shell::setRadiativeTransitions(std::map<std::string, double> inputMap)
@@ -642,18 +654,19 @@ void Shell::setShellConstants(std::map<std::string, double> shellConstants)
     std::string msg;
     std::map<std::string, double>::const_iterator c_it;
 
+    // check everything prior to change anything
     for (c_it = shellConstants.begin(); c_it != shellConstants.end(); ++c_it)
     {
-        if(this->shellConstants.find(c_it->first) != this->shellConstants.end())
-        {
-            this->shellConstants[c_it->first] = c_it->second;
-        }
-        else
+        if(this->shellConstants.find(c_it->first) == this->shellConstants.end())
         {
             msg = "Invalid constant " + c_it->first + " for " + this->name +" shell";
             throw std::invalid_argument(msg);
         }
     }
+    for (c_it = shellConstants.begin(); c_it != shellConstants.end(); ++c_it)
+    {
+        this->shellConstants[c_it->first] = c_it->second;
+    }
 }
 
 const std::map<std::string, double> & Shell::getShellConstants() const
-- 
2.43.0


From 2ef240a89b964df60682226539f92f0a9ca16296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 03/63] fix: Element::setBindingEnergies kept cached results
 and lost the shells on failure

---
 src/fisx_element.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index b3292ba..9ba645f 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -146,14 +146,12 @@ void Element::setBindingEnergies(std::map<std::string, double> bindingEnergies)
 {
     std::map<std::string, double>::iterator it;
     std::string tmpString;
-
-    // get rid of any shell definition
-    this->shellInstance.clear();
-    this->bindingEnergy.clear();
+    std::map<std::string, double> newBindingEnergy;
+    std::map<std::string, Shell> newShellInstance;
 
     for (it = bindingEnergies.begin(); it != bindingEnergies.end(); ++it)
     {
-        this->bindingEnergy[it->first] = it->second;
+        newBindingEnergy[it->first] = it->second;
         tmpString = "";
         if (it->first.size())
         {
@@ -162,18 +160,24 @@ void Element::setBindingEnergies(std::map<std::string, double> bindingEnergies)
         //std::cout << this->name << " " << it->first << " " << it->second << "tmp = " << tmpString << std::endl;
         if ((tmpString == "K") || (tmpString == "L") || (tmpString == "M"))
         {
-            if (this->shellInstance.find(it->first) == this->shellInstance.end())
+            if (newShellInstance.find(it->first) == newShellInstance.end())
             {
                 // instantiate the appropriate shell
                 // Shell constructor will take care of valid shells
                 // This uses default constructor ...
-                this->shellInstance[it->first] = Shell(it->first);
+                newShellInstance[it->first] = Shell(it->first);
                 /* This does not require default constructor, but MSVC still requires it
                  this->shellInstance.insert\
                     (std::map<std::string, Shell>::value_type(it->first, Shell::Shell(it->first))); */
             }
         }
     }
+
+    // everything went fine, get rid of any previous shell definition
+    // and of any result calculated with them
+    this->bindingEnergy.swap(newBindingEnergy);
+    this->shellInstance.swap(newShellInstance);
+    this->clearCache();
 }
 
 void Element::setBindingEnergies(std::vector<std::string> labels, std::vector<double> bindingEnergies)
-- 
2.43.0


From f7f84ca44406b7f5e78fd79f72db8e1ebcfc3d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 04/63] fix: Element mass attenuation setters left half updated
 data behind on failure

---
 src/fisx_element.cpp | 69 ++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 35 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 9ba645f..8a18f83 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -225,7 +225,7 @@ void Element::setMassAttenuationCoefficients(const std::vector<double> & energie
     std::string msg;
     std::vector<double>::const_iterator c_it;
     std::vector<double>::size_type length, i, pairLength;
-    std::map<std::string, std::vector<double> >::iterator mu_it;
+    std::map<std::string, std::vector<double> > newMu;
 
     // energies are expected in keV and ordered
     length = energies.size();
@@ -271,41 +271,34 @@ void Element::setMassAttenuationCoefficients(const std::vector<double> & energie
             }
         }
     }
-    this->clearCache();
-
-    if (this->mu.size() > 0)
-    {
-        for (mu_it = this->mu.begin(); mu_it != this->mu.end(); ++mu_it)
-        {
-            this->mu[mu_it->first].clear();
-        }
-        this->mu.clear();
-    }
-
-    this->mu["coherent"] = std::vector<double> (coherent);
-    this->mu["compton"] = std::vector<double> (compton);
-    this->mu["energy"] = std::vector<double> (energies);
+    newMu["coherent"] = std::vector<double> (coherent);
+    newMu["compton"] = std::vector<double> (compton);
+    newMu["energy"] = std::vector<double> (energies);
     // TODO get rid of this vector?
-    this->muEnergy = std::vector<double> (energies);
+    std::vector<double> newMuEnergy(energies);
     if (pairLength > 0)
     {
-        this->mu["pair"] = std::vector<double> (pair);
+        newMu["pair"] = std::vector<double> (pair);
     }
     else
     {
-        this->mu["pair"].resize(length);
+        newMu["pair"].resize(length);
         for (i = 0; i < length; i++)
         {
-            this->mu["pair"][i] = 0.0;
+            newMu["pair"][i] = 0.0;
         }
     }
-    this->mu["photoelectric"] = std::vector<double> (photoelectric);
-    this->mu["total"] = std::vector<double> (coherent);
+    newMu["photoelectric"] = std::vector<double> (photoelectric);
+    newMu["total"] = std::vector<double> (coherent);
     for (i = 0; i < length; i++)
     {
-        this->mu["total"][i] += this->mu["compton"][i] +\
-                                this->mu["pair"][i] + this->mu["photoelectric"][i];
+        newMu["total"][i] += newMu["compton"][i] +\
+                                newMu["pair"][i] + newMu["photoelectric"][i];
     }
+
+    this->clearCache();
+    this->mu.swap(newMu);
+    this->muEnergy.swap(newMuEnergy);
 }
 
 void Element::setTotalMassAttenuationCoefficient(const std::vector<double> & energies, \
@@ -624,7 +617,8 @@ void Element::setPartialPhotoelectricMassAttenuationCoefficients(const std::stri
 {
     std::string msg;
     std::vector<double>::size_type i, length;
-    double lastEnergy;
+    std::map<std::string, double>::const_iterator c_it;
+    double lastEnergy, shellEnergy;
 
     if (this->muPartialPhotoelectricEnergy.find(shell) == this->muPartialPhotoelectricEnergy.end())
     {
@@ -654,32 +648,37 @@ void Element::setPartialPhotoelectricMassAttenuationCoefficients(const std::stri
     }
 
     // checks finished, we can go ahead
-    this->clearCache();
-    this->muPartialPhotoelectricEnergy[shell].clear();
-    this->muPartialPhotoelectricValue[shell].clear();
-
-    this->muPartialPhotoelectricEnergy[shell] = std::vector<double>(energy);
-    this->muPartialPhotoelectricValue[shell] = std::vector<double>(partialPhotoelectric);
+    std::vector<double> newEnergy(energy);
+    std::vector<double> newValue(partialPhotoelectric);
+    shellEnergy = 0.0;
+    c_it = this->bindingEnergy.find(shell);
+    if (c_it != this->bindingEnergy.end())
+    {
+        shellEnergy = c_it->second;
+    }
     if (shell != "all other")
     {
         for (i = 1; i < length; i++)
         {
-            if (this->muPartialPhotoelectricEnergy[shell][i] < this->bindingEnergy[shell])
+            if (newEnergy[i] < shellEnergy)
             {
-                this->muPartialPhotoelectricValue[shell][i] = 0.0;
+                newValue[i] = 0.0;
             }
             else
             {
                 // case of repeated values corresponding to an edge where the edge energy is above the set binding energy
                 // for instance, exciting lead at 15.19 keV
-                if (this->muPartialPhotoelectricEnergy[shell][i] == this->muPartialPhotoelectricEnergy[shell][i - 1])
+                if (newEnergy[i] == newEnergy[i - 1])
                 {
-                    this->muPartialPhotoelectricEnergy[shell][i] += 0.000001;
-                    this->muPartialPhotoelectricValue[shell][i - 1] = this->muPartialPhotoelectricValue[shell][i];
+                    newEnergy[i] += 0.000001;
+                    newValue[i - 1] = newValue[i];
                 }
             }
         }
     }
+    this->clearCache();
+    this->muPartialPhotoelectricEnergy[shell].swap(newEnergy);
+    this->muPartialPhotoelectricValue[shell].swap(newValue);
     //std::cout << this->muPartialPhotoelectricEnergy[shell][1100] << " " << this->muPartialPhotoelectricValue[shell][1100] << std::endl;
 }
 
-- 
2.43.0


From d19043aeeb70ce7df6c06f5bdfc74fbcea513875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 05/63] fix: extracting the edge energies of an element
 modified its data

---
 src/fisx_element.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 8a18f83..9296d4e 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -490,7 +490,8 @@ std::map<std::string, std::vector<double> > Element::getMassAttenuationCoefficie
 
 std::map<std::string, std::pair<double, int> > Element::extractEdgeEnergiesFromMassAttenuationCoefficients()
 {
-    if(this->mu["photoelectric"].size() < 1)
+    if(this->mu.find("photoelectric") == this->mu.end() || \
+       this->mu["photoelectric"].size() < 1)
     {
         throw std::runtime_error("Photoelectric mass attenuation coefficients not initialized");
     }
@@ -518,6 +519,7 @@ std::map<std::string, std::pair<double, int> > \
     double energy;
     std::map<double, std::vector<double>::size_type> candidates;
     std::map<double, std::vector<double>::size_type>::const_iterator c_it;
+    std::map<std::string, double>::const_iterator binding_it;
 
     int    shellIndex;
 
@@ -562,10 +564,11 @@ std::map<std::string, std::pair<double, int> > \
             --c_it;
             energy = c_it->first;
             key = shellList[shellIndex];
-            if (this->bindingEnergy[key] > 0.0)
+            binding_it = this->bindingEnergy.find(key);
+            if ((binding_it != this->bindingEnergy.end()) && (binding_it->second > 0.0))
                 {
                 // check the energy is correct within 100 eV
-                if(fabs(energy - this->bindingEnergy[key]) < 0.100)
+                if(fabs(energy - binding_it->second) < 0.100)
                 {
                     result[key].first = energy;
                     result[key].second = (int) c_it->second;
-- 
2.43.0


From 2673c91a9f19aa0e03feda0138ae2ee9d4a07dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 06/63] fix: Element::setRadiativeTransitions kept results
 calculated with the previous rates

---
 src/fisx_element.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 9296d4e..12562f4 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -989,6 +989,7 @@ void Element::setRadiativeTransitions(std::string subshell, \
         throw std::invalid_argument(msg);
     }
     this->shellInstance[subshell].setRadiativeTransitions(labels, values);
+    this->clearCache();
 }
 
 void Element::setRadiativeTransitions(std::string subshell, std::map<std::string, double> values)
-- 
2.43.0


From 6cdf4f74d1234c96d97f7640097392e1e8ffdca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 07/63] fix: Element Auger and Coster-Kronig ratios were
 references to destroyed objects

---
 src/fisx_element.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 12562f4..21474c6 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1094,15 +1094,13 @@ const std::map<std::string, double> & Element::getFluorescenceRatios(const std::
 
 const std::map<std::string, double> & Element::getAugerRatios(std::string subshell)
 {
-    Shell shell;
-    shell = this->getShell(subshell);
+    const Shell & shell = this->getShell(subshell);
     return shell.getAugerRatios();
 }
 
 const std::map<std::string, std::map<std::string, double> > & Element::getCosterKronigRatios(std::string subshell)
 {
-    Shell shell;
-    shell = this->getShell(subshell);
+    const Shell & shell = this->getShell(subshell);
     return shell.getCosterKronigRatios();
 }
 
-- 
2.43.0


From c5e5443a7791e193e5ebd38c1669f243aee2b209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 08/63] fix: a failure while filling the cascade cache left it
 partial and disabled

---
 src/fisx_element.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 21474c6..475f88e 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1620,23 +1620,31 @@ void Element::fillCascadeCache()
 {
     std::map<std::string, Shell>::const_iterator shellIterator;
     bool oldFlag;
+    std::map<std::string, std::map<std::string, std::map<std::string, double> > > newCascadeCache;
+
+    // this is needed because otherways it uses the cache when filling the cache :-)
+    // and, if something goes wrong, an empty cache is safe while a partially filled one is not.
     this->cascadeCache.clear();
-    // std::cout << "filling cache for element " << this->name << std::endl;
-    for (shellIterator = shellInstance.begin(); shellIterator != shellInstance.end(); ++shellIterator)
-    {
-        std::string subshell = shellIterator->first;
-        std::map<std::string, double> tmpDistribution;
-        tmpDistribution.clear();
-        tmpDistribution[subshell] = 1.0;
-        oldFlag = this->cascadeCacheEnabledFlag;
-        if (oldFlag)
+    oldFlag = this->cascadeCacheEnabledFlag;
+    this->cascadeCacheEnabledFlag = false;
+    try
+    {
+        // std::cout << "filling cache for element " << this->name << std::endl;
+        for (shellIterator = shellInstance.begin(); shellIterator != shellInstance.end(); ++shellIterator)
         {
-            // this is needed because otherways it uses the cache when filling the cache :-)
-            this->cascadeCacheEnabledFlag = false;
+            std::string subshell = shellIterator->first;
+            std::map<std::string, double> tmpDistribution;
+            tmpDistribution[subshell] = 1.0;
+            newCascadeCache[subshell] = this->getXRayLinesFromVacancyDistribution(tmpDistribution, 1, 1);
         }
-        this->cascadeCache[subshell] = this->getXRayLinesFromVacancyDistribution(tmpDistribution, 1, 1);
+    }
+    catch(...)
+    {
         this->cascadeCacheEnabledFlag = oldFlag;
+        throw;
     }
+    this->cascadeCacheEnabledFlag = oldFlag;
+    this->cascadeCache.swap(newCascadeCache);
     //std::cout << "cache filled for element " << this->name << std::endl;
 }
 
-- 
2.43.0


From 97e9ca14b99c30a651edc2a88c0890ce15b933b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 09/63] fix: Element interpolation read outside the data for a
 single energy

---
 src/fisx_element.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 475f88e..ea59f78 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1573,6 +1573,13 @@ std::pair<long, long> Element::getInterpolationIndices(const std::vector<double>
     std::pair<long, long> result;
     std::vector<double>::const_iterator c_it;
 
+    if (vec.size() < 2)
+    {
+        result.first = 0L;
+        result.second = 0L;
+        return result;
+    }
+
     c_it = std::lower_bound(vec.begin(), vec.end(), x);
 
     if (c_it == vec.end())
-- 
2.43.0


From 3deba23575cc74ba6968866859a3231dcfc5f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 10/63] fix: partial photoelectric coefficients of unset shells
 were read outside the data

---
 src/fisx_element.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index ea59f78..e5a9ea0 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -715,12 +715,22 @@ std::map<std::string, double> \
         if (shell != "all other")
         {
             c_itSingle = this->bindingEnergy.find(shell);
+            if (c_itSingle == this->bindingEnergy.end())
+            {
+                // the element does not have that shell
+                continue;
+            }
             if ((c_itSingle->second == 0.0) || (energy < c_itSingle->second))
             {
                 continue;
             }
         }
         c_it = this->muPartialPhotoelectricEnergy.find(shell);
+        if (c_it->second.size() < 1)
+        {
+            // no data were supplied for that shell
+            continue;
+        }
         y_it = this->muPartialPhotoelectricValue.find(shell);
         indices = this->getInterpolationIndices(c_it->second, energy);
         i1 = indices.first;
-- 
2.43.0


From 0265d9b83efbf35e5b936e29bb7e7b53f9455908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 11/63] fix: Element atomic mass was not initialized

---
 src/fisx_element.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index e5a9ea0..89e3a4c 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -46,6 +46,9 @@ Element::Element()
     // Undefined atomic number
     this->atomicNumber = 0;
 
+    // Unset atomic mass
+    this->atomicMass = 0.0;
+
     // Unset density
     this->density = 1.0;
 
@@ -70,6 +73,9 @@ Element::Element(std::string name, int z = 0)
     this->name = name;
     this->setAtomicNumber(z);
 
+    // Unset atomic mass
+    this->atomicMass = 0.0;
+
     // Give as long name the name as default
     this->longName = name;
 
-- 
2.43.0


From 2bf9e70e41932c8b21233e921771c24c6ca005ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 12/63] fix: SimpleSpecfile returned stale or incomplete data
 after a read error

---
 src/fisx_simplespecfile.cpp | 57 ++++++++++++++++++++++++++++---------
 src/fisx_simplespecfile.h   |  4 +++
 2 files changed, 48 insertions(+), 13 deletions(-)

diff --git a/src/fisx_simplespecfile.cpp b/src/fisx_simplespecfile.cpp
index e54bd53..c095ef9 100644
--- a/src/fisx_simplespecfile.cpp
+++ b/src/fisx_simplespecfile.cpp
@@ -57,9 +57,11 @@ void SimpleSpecfile::setFileName(std::string fileName)
     long numberOfLines = -1;
     std::ifstream fileInstance(fileName.c_str(), std::ios::in | std::ios::binary);
     std::streampos position;
+    std::vector<std::pair<long, long> > newFilePositions;
+    std::vector<std::streampos> newPosition;
 
-    this->scanFilePositions.clear();
-    this->scanPosition.clear();
+    // a read error is not an end of file
+    fileInstance.exceptions(std::ios::badbit);
     position = 0;
     while (std::getline(fileInstance, line))
     {
@@ -70,9 +72,9 @@ void SimpleSpecfile::setFileName(std::string fileName)
             if (line.substr(0, 2) == "#S")
             {
                 startLine = numberOfLines;
-                this->scanFilePositions.push_back(std::make_pair(startLine, startLine));
+                newFilePositions.push_back(std::make_pair(startLine, startLine));
                 endLine = -1;
-                this->scanPosition.push_back(position);
+                newPosition.push_back(position);
             }
         }
         else
@@ -81,7 +83,7 @@ void SimpleSpecfile::setFileName(std::string fileName)
             {
                 startLine = -1;
                 endLine = numberOfLines;
-                this->scanFilePositions.back().second = endLine;
+                newFilePositions.back().second = endLine;
             }
         }
         position = fileInstance.tellg();
@@ -89,20 +91,36 @@ void SimpleSpecfile::setFileName(std::string fileName)
 
     if ((endLine == -1) && startLine >= 0)
     {
-        this->scanFilePositions.back().second = numberOfLines + 1;
+        newFilePositions.back().second = numberOfLines + 1;
     }
     fileInstance.clear();
     if (fileInstance.is_open())
     {
         fileInstance.close();
     }
-    // std::cout << "Number of scans: " << this->scanFilePositions.size();
+    // std::cout << "Number of scans: " << newFilePositions.size();
     // std::cout << std::endl;
-    this->fileName = fileName;
+    this->fileName.swap(fileName);
+    this->scanFilePositions.swap(newFilePositions);
+    this->scanPosition.swap(newPosition);
     //std::cout << "PASSED" << std::endl;
 }
 
 
+void SimpleSpecfile::goToScan(std::ifstream & fileInstance, int scanIndex) const
+{
+    if (!fileInstance.is_open())
+    {
+        throw std::ios_base::failure("Cannot open file " + this->fileName);
+    }
+    fileInstance.seekg(this->scanPosition[scanIndex], std::ios::beg);
+    if (!fileInstance.good())
+    {
+        throw std::ios_base::failure("Cannot position file " + this->fileName);
+    }
+}
+
+
 int SimpleSpecfile::getNumberOfScans()
 {
     return (int) this->scanFilePositions.size();
@@ -119,6 +137,7 @@ std::vector<std::string> SimpleSpecfile::getScanLabels(int scanIndex)
     std::vector<std::string> result;
 
     // fileInstance.seekg(0, std::ifstream::beg);
+    fileInstance.exceptions(std::ios::badbit);
     if((scanIndex >= (long) this->getNumberOfScans()) || (scanIndex < 0))
     {
         throw std::invalid_argument("Not a valid scan index");
@@ -131,7 +150,7 @@ std::vector<std::string> SimpleSpecfile::getScanLabels(int scanIndex)
     //    //std::cout << line << std::endl;
     //}
     // This is faster but needs the file open in binary mode
-    fileInstance.seekg(this->scanPosition[scanIndex], std::ios::beg);
+    this->goToScan(fileInstance, scanIndex);
     nLines = 1 + this->scanFilePositions[scanIndex].second - \
                         this->scanFilePositions[scanIndex].first;
 
@@ -147,7 +166,11 @@ std::vector<std::string> SimpleSpecfile::getScanLabels(int scanIndex)
         {
             if (line.substr(0, 2) != "#L")
             {
-                std::getline(fileInstance, line);
+                if (!std::getline(fileInstance, line))
+                {
+                    line.clear();
+                    i = nLines;
+                }
             }
             else
             {
@@ -157,7 +180,11 @@ std::vector<std::string> SimpleSpecfile::getScanLabels(int scanIndex)
         }
         else
         {
-            std::getline(fileInstance, line);
+            if (!std::getline(fileInstance, line))
+            {
+                line.clear();
+                i = nLines;
+            }
         }
         i++;
     }
@@ -238,11 +265,15 @@ std::vector<std::vector<double> > SimpleSpecfile::getScanData(int scanIndex)
     //}
 
     // If instead of the loop I use this it does not work unless the file is opened in binary mode
-    fileInstance.seekg(this->scanPosition[scanIndex], std::ios::beg);
+    fileInstance.exceptions(std::ios::badbit);
+    this->goToScan(fileInstance, scanIndex);
     i = this->scanFilePositions[scanIndex].first;
     for ( ; i < this->scanFilePositions[scanIndex].second; i++)
     {
-        std::getline(fileInstance, line);
+        if (!std::getline(fileInstance, line))
+        {
+            throw std::ios_base::failure("Unexpected end of file " + this->fileName);
+        }
         if (!line.empty())
         {
             if(line[line.size() - 1] == '\r')
diff --git a/src/fisx_simplespecfile.h b/src/fisx_simplespecfile.h
index 83017b7..585c759 100644
--- a/src/fisx_simplespecfile.h
+++ b/src/fisx_simplespecfile.h
@@ -27,6 +27,7 @@
 #############################################################################*/
 #ifndef FISX_SIMPLE_SPECFILE_H
 #define FISX_SIMPLE_SPECFILE_H
+#include <fstream>
 #include <string>
 #include <vector>
 #include <map>
@@ -69,6 +70,9 @@ public:
     // it is the responsibility of the caller to delete the scan
     // SpecfileScan* getScan(int scanNumber);
 private:
+    // set the reading position to the start of the given scan
+    void goToScan(std::ifstream & fileInstance, int scanIndex) const;
+
     std::string fileName;
     // the starting and ending points of each scan
     std::vector<std::pair<long, long> > scanFilePositions;
-- 
2.43.0


From 0f421dd644cdbaa12a679ed1c8dab5eb67d08191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 13/63] fix: SimpleIni mixed the contents of several files and
 ignored read errors

---
 src/fisx_simpleini.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/fisx_simpleini.cpp b/src/fisx_simpleini.cpp
index 9758f6d..2851943 100644
--- a/src/fisx_simpleini.cpp
+++ b/src/fisx_simpleini.cpp
@@ -65,14 +65,17 @@ void SimpleIni::readFileName(std::string fileName)
     std::streampos position;
     std::ifstream fileInstance(fileName.c_str(), std::ios::in | std::ios::binary);
     std::string msg;
+    std::map<std::string, std::map<std::string, std::string> > newSectionContents;
+    std::vector<std::string> newSections;
+    std::map<std::string, long> newSectionPositions;
 
     if (!fileInstance.good())
     {
         msg = "File <" + fileName + "> mot accessible";
         throw std::ios_base::failure(msg);;
     }
-    this->sections.clear();
-    this->sectionPositions.clear();
+    // a read error is not an end of file
+    fileInstance.exceptions(std::ios::badbit);
     p0 = 0;
     position = 0;
     numberOfLines = -1;
@@ -130,8 +133,8 @@ void SimpleIni::readFileName(std::string fileName)
                     throw std::invalid_argument(msg);
                 }
                 mainKey = trimmedLine.substr(p0 + 1, length);
-                this->sections.push_back(mainKey);
-                this->sectionPositions[mainKey] = numberOfLines;
+                newSections.push_back(mainKey);
+                newSectionPositions[mainKey] = numberOfLines;
                 continue;
             }
 
@@ -205,14 +208,14 @@ void SimpleIni::readFileName(std::string fileName)
                 }
                 key = tmpString.substr(p0, length);
                 content = tmpString.substr(p1 + 1, tmpString.size() - p1 - 1);
-                this->sectionContents[mainKey][key] = content;
+                newSectionContents[mainKey][key] = content;
             }
             else
             {
                 // continuation line
                 if ((key.size() > 0) && (mainKey.size() > 0))
                 {
-                    this->sectionContents[mainKey][key] += tmpString;
+                    newSectionContents[mainKey][key] += tmpString;
                 }
                 else
                 {
@@ -226,7 +229,11 @@ void SimpleIni::readFileName(std::string fileName)
     {
         fileInstance.close();
     }
-    this->fileName = fileName;
+    // everything went fine, nothing of a previously read file should remain
+    this->fileName.swap(fileName);
+    this->sections.swap(newSections);
+    this->sectionPositions.swap(newSectionPositions);
+    this->sectionContents.swap(newSectionContents);
 }
 
 
-- 
2.43.0


From a99738d85849c715225f9dde5d0c6059c8c97303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 14/63] fix: SimpleIni added a null character to the value of
 commented lines

---
 src/fisx_simpleini.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fisx_simpleini.cpp b/src/fisx_simpleini.cpp
index 2851943..e0cc057 100644
--- a/src/fisx_simpleini.cpp
+++ b/src/fisx_simpleini.cpp
@@ -159,7 +159,8 @@ void SimpleIni::readFileName(std::string fileName)
                 {
                     if ((trimmedLine[i] == '#') || (trimmedLine[i] == ';'))
                     {
-                        i = trimmedLine.size();
+                        // the rest of the line is a comment
+                        break;
                     }
                     if (equalPosition == 0)
                     {
-- 
2.43.0


From fb4f26aa5d9fd166a678518325748c6b04c19f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 15/63] fix: SimpleIni section lookups returned the wrong
 sections

---
 src/fisx_simpleini.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fisx_simpleini.cpp b/src/fisx_simpleini.cpp
index e0cc057..6ac3ff1 100644
--- a/src/fisx_simpleini.cpp
+++ b/src/fisx_simpleini.cpp
@@ -267,7 +267,7 @@ void SimpleIni::getSubsections(const std::string & parent, \
         targetString = parent + ".";
         for (i = 0; i < this->sections.size(); i++)
         {
-            if (this->sections[i].size() == targetString.size())
+            if (this->sections[i].size() >= targetString.size())
             {
                 if (this->sections[i].substr(0, targetString.size()) == targetString)
                 {
@@ -326,7 +326,7 @@ const std::map<std::string, std::string > & SimpleIni::readSection(const std::st
                             break;
                         }
                     }
-                    if (j < inputKey.size())
+                    if (j == inputKey.size())
                     {
                         return this->sectionContents[tmpKey];
                     }
-- 
2.43.0


From 287217fdd86327a523b65f8fadb4887badc312dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 16/63] fix: SimpleIni value parsing took lack of memory for
 invalid values

---
 src/fisx_simpleini.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fisx_simpleini.h b/src/fisx_simpleini.h
index f8ad2d3..415e531 100644
--- a/src/fisx_simpleini.h
+++ b/src/fisx_simpleini.h
@@ -96,6 +96,8 @@ public:
                                   const T & defaultValue)
     {
         std::stringstream stream(keyContent);
+        // lack of memory is not an invalid value
+        stream.exceptions(std::ios_base::badbit);
         stream >> destination;
         if (stream.fail())
         {
@@ -110,6 +112,8 @@ public:
                                             const char & separator = ',')
     {
         std::stringstream ss(keyContent);
+        // lack of memory is not the end of the list
+        ss.exceptions(std::ios_base::badbit);
         T result;
         std::string item;
         destination.clear();
@@ -126,6 +130,8 @@ public:
     static bool stringConverter(const std::string& str, T & number)
     {
         std::istringstream i(str);
+        // lack of memory is not an invalid value
+        i.exceptions(std::ios_base::badbit);
         if (!(i >> number))
         {
             // Number conversion failed
-- 
2.43.0


From 7c61d23e758d480138f16da359cc183e74b79bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 17/63] fix: Beam read outside incomplete lists of weights,
 flags or divergencies

---
 src/fisx_beam.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fisx_beam.cpp b/src/fisx_beam.cpp
index cc5095a..e0feef8 100644
--- a/src/fisx_beam.cpp
+++ b/src/fisx_beam.cpp
@@ -26,6 +26,7 @@
 #
 #############################################################################*/
 #include "fisx_beam.h"
+#include <stdexcept>
 #include <algorithm>
 
 namespace fisx
@@ -47,6 +48,14 @@ void Beam::setBeam(const std::vector<double> & energy, \
     int defaultCharacteristic;
     double defaultDivergency;
 
+    // a single value is taken for all the energies, otherwise one value per energy is needed
+    if (((weight.size() > 1) && (weight.size() < energy.size())) || \
+        ((characteristic.size() > 1) && (characteristic.size() < energy.size())) || \
+        ((divergency.size() > 1) && (divergency.size() < energy.size())))
+    {
+        throw std::invalid_argument("Not enough weights, flags or divergencies for the beam energies");
+    }
+
     this->normalized = false;
 
     if(energy.size() > 0)
-- 
2.43.0


From 6f344cda809d59f79b350351f5b2c9e3a2406960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 18/63] fix: Material was left half updated on failure

---
 src/fisx_material.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/fisx_material.cpp b/src/fisx_material.cpp
index f531107..c590e1c 100644
--- a/src/fisx_material.cpp
+++ b/src/fisx_material.cpp
@@ -85,10 +85,13 @@ void Material::initialize(const std::string & materialName, const double & densi
         throw std::invalid_argument("Material thickness should be positive");
     }
 
-    this->name = materialName;
+    // work on copies, a failure should leave this instance untouched
+    std::string newName(materialName);
+    std::string newComment(comment);
+    this->name.swap(newName);
     this->defaultDensity = density;
     this->defaultThickness = thickness;
-    this->comment = comment;
+    this->comment.swap(newComment);
     this->initialized = true;
 }
 
@@ -136,13 +139,13 @@ void Material::setComposition(const std::vector<std::string> & names, const std:
         total += amounts[i];
     }
 
-    this->composition.clear();
-
+    // work on a copy, a failure should leave this instance untouched
+    std::map<std::string, double> newComposition;
     for (i = 0; i < amounts.size(); ++i)
     {
-        this->composition[names[i]] = amounts[i] / total;
+        newComposition[names[i]] = amounts[i] / total;
     }
-
+    this->composition.swap(newComposition);
 }
 
 std::map<std::string, double> Material::getComposition() const
-- 
2.43.0


From a617ff3dbdec83a85cc4639d1a7d4f1ce6c1aead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 19/63] fix: XRFConfig reference layer was not initialized

---
 src/fisx_xrfconfig.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 6689670..e7f0d62 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -36,6 +36,7 @@ namespace fisx
 
 XRFConfig::XRFConfig()
 {
+    this->referenceLayer = 0;
     this->setGeometry(45.0, 45.0, 90.);
 }
 
-- 
2.43.0


From 62fe5509c9de7faa400c6ebb9049f47da102b319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 20/63] fix: XRFConfig was left half updated when reading a
 configuration failed

---
 src/fisx_xrfconfig.cpp | 21 +++++++++++++++++++++
 src/fisx_xrfconfig.h   |  3 +++
 2 files changed, 24 insertions(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index e7f0d62..6504fb1 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -48,6 +48,27 @@ void XRFConfig::setGeometry(const double & alphaIn, const double & alphaOut, con
 }
 
 void XRFConfig::readConfigurationFromFile(const std::string & fileName)
+{
+    // read into a fresh configuration: nothing of the current one should remain on success
+    // and nothing should change on failure
+    XRFConfig newConfig;
+    newConfig.loadConfigurationFromFile(fileName);
+
+    std::swap(this->beam, newConfig.beam);
+    this->materials.swap(newConfig.materials);
+    this->beamFilters.swap(newConfig.beamFilters);
+    this->sample.swap(newConfig.sample);
+    this->attenuators.swap(newConfig.attenuators);
+    this->userBeamFilters.swap(newConfig.userBeamFilters);
+    this->userAttenuators.swap(newConfig.userAttenuators);
+    this->referenceLayer = newConfig.referenceLayer;
+    this->alphaIn = newConfig.alphaIn;
+    this->alphaOut = newConfig.alphaOut;
+    this->scatteringAngle = newConfig.scatteringAngle;
+    std::swap(this->detector, newConfig.detector);
+}
+
+void XRFConfig::loadConfigurationFromFile(const std::string & fileName)
 {
     SimpleIni iniFile = SimpleIni(fileName);
     std::map<std::string, std::string> sectionContents;
diff --git a/src/fisx_xrfconfig.h b/src/fisx_xrfconfig.h
index 36c7984..f53ed9e 100644
--- a/src/fisx_xrfconfig.h
+++ b/src/fisx_xrfconfig.h
@@ -149,6 +149,9 @@ public:
    const int & getReferenceLayer() const {return this->referenceLayer;};
 
 private:
+    // read the file into this instance, that is left half updated on failure
+    void loadConfigurationFromFile(const std::string & fileName);
+
     Beam beam;
     std::vector<Material> materials;
     std::vector<Layer> beamFilters;
-- 
2.43.0


From b3eef0dfcb78cbe1bca433a7c470a491918e2611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 21/63] fix: XRFConfig used values of a section for the
 following ones

---
 src/fisx_xrfconfig.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 6504fb1..21d2b77 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -216,6 +216,12 @@ void XRFConfig::loadConfigurationFromFile(const std::string & fileName)
             sectionContents.clear();
             sectionContents = iniFile.readSection(stringVector[iStringVector], true);
             splitString.clear();
+            // nothing from a previous material should be used
+            density = 1.0;
+            thickness = 1.0;
+            comment = "";
+            compoundList.clear();
+            compoundFractions.clear();
             iniFile.parseStringAsMultipleValues(stringVector[iStringVector],
                                             splitString,
                                             std::string(),
@@ -273,6 +279,8 @@ void XRFConfig::loadConfigurationFromFile(const std::string & fileName)
             sectionContents.clear();
             sectionContents = iniFile.readSection(stringVector[iStringVector], true);
             splitString.clear();
+            energyList.clear();
+            transmissionList.clear();
             iniFile.parseStringAsMultipleValues(stringVector[iStringVector],
                                             splitString,
                                             std::string(),
@@ -329,6 +337,8 @@ void XRFConfig::loadConfigurationFromFile(const std::string & fileName)
             sectionContents.clear();
             sectionContents = iniFile.readSection(stringVector[iStringVector], true);
             splitString.clear();
+            energyList.clear();
+            transmissionList.clear();
             iniFile.parseStringAsMultipleValues(stringVector[iStringVector],
                                             splitString,
                                             std::string(),
-- 
2.43.0


From d9e124a20d6b247c3b6a60210bce775ae7ce3adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 22/63] fix: XRFConfig read outside incomplete lists of values

---
 src/fisx_xrfconfig.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 21d2b77..065c635 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -165,6 +165,13 @@ void XRFConfig::loadConfigurationFromFile(const std::string & fileName)
         std::fill(flagVector.begin(), flagVector.end(), 1);
     }
 
+    if ((flagVector.size() > mapDoubles["energy"].size()) || \
+        (mapDoubles["weight"].size() < mapDoubles["energy"].size()) || \
+        (intVector.size() < mapDoubles["energy"].size()))
+    {
+        throw std::invalid_argument("Beam energies, weights and flags do not match");
+    }
+
     counter = 0;
     iIntVector = flagVector.size();
     while(iIntVector > 0)
@@ -226,6 +233,10 @@ void XRFConfig::loadConfigurationFromFile(const std::string & fileName)
                                             splitString,
                                             std::string(),
                                             '.');
+            if (splitString.size() < 2)
+            {
+                throw std::invalid_argument("Unnamed section: " + stringVector[iStringVector]);
+            }
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
             {
                 key = c_it->first;
@@ -285,6 +296,10 @@ void XRFConfig::loadConfigurationFromFile(const std::string & fileName)
                                             splitString,
                                             std::string(),
                                             '.');
+            if (splitString.size() < 2)
+            {
+                throw std::invalid_argument("Unnamed section: " + stringVector[iStringVector]);
+            }
             useFlag = 0.0;
             comment = "";
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
@@ -343,6 +358,10 @@ void XRFConfig::loadConfigurationFromFile(const std::string & fileName)
                                             splitString,
                                             std::string(),
                                             '.');
+            if (splitString.size() < 2)
+            {
+                throw std::invalid_argument("Unnamed section: " + stringVector[iStringVector]);
+            }
             useFlag = 0.0;
             comment = "";
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
@@ -407,6 +426,10 @@ void XRFConfig::loadConfigurationFromFile(const std::string & fileName)
             {
                 // BeamFilter0 = 0, -, 0.0, 0.0, 1.0
                 // std::cout << "BEAMFILTER" << std::endl;
+                if (doubleVector.size() < 5)
+                {
+                    throw std::invalid_argument("Not enough values for " + c_it->first);
+                }
                 layer = Layer(c_it->first, doubleVector[2], doubleVector[3], doubleVector[4]);
                 layer.setMaterial(stringVector[1]);
                 for(iMaterial = 0; iMaterial < this->materials.size(); iMaterial++)
@@ -454,6 +477,10 @@ void XRFConfig::loadConfigurationFromFile(const std::string & fileName)
                 }
                 else
                 {
+                    if (doubleVector.size() < 5)
+                    {
+                        throw std::invalid_argument("Not enough values for " + c_it->first);
+                    }
                     if (c_it->first.substr(0, 8) == "Detector")
                     {
                         // DETECTOR
@@ -510,6 +537,10 @@ void XRFConfig::loadConfigurationFromFile(const std::string & fileName)
             if (doubleVector[0] > 0.0)
             {
                     //BeamFilter0 = 0, -, 0.0, 0.0, 1.0
+                    if (doubleVector.size() < 4)
+                    {
+                        throw std::invalid_argument("Not enough values for " + c_it->first);
+                    }
                     layer = Layer(c_it->first, doubleVector[2], doubleVector[3]);
                     layer.setMaterial(stringVector[1]);
                     for(iMaterial = 0; iMaterial < this->materials.size(); iMaterial++)
-- 
2.43.0


From d9d0f264cef061df7ece59638800f3d8a9f7b153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 23/63] fix: Elements escape cache state was not initialized

---
 src/fisx_elements.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 420d198..0831371 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -155,6 +155,14 @@ void Elements::initialize(std::string epdl97Directory, std::string bindingEnergi
     std::string joinSymbol;
     std::string filename;
 
+    // The escape cache is disabled by default
+    this->escapeCacheEnabled = 0;
+    this->detectorEnergyThresholdUsedInCache = 0.0;
+    this->detectorIntensityThresholdUsedInCache = 0.0;
+    this->detectorNThresholdUsedInCache = 0;
+    this->detectorAlphaInUsedInCache = 0.0;
+    this->detectorThicknessUsedInCache = 0.0;
+
     // Indicate we are going to configure everything
     this->shellConstantsFile["K"] = "";
     this->shellConstantsFile["L"] = "";
-- 
2.43.0


From e50212c6b2c1defef19d6c3c2a2b96fc3bedddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 24/63] fix: Elements escape cache could be attributed to the
 wrong settings after a failure

---
 src/fisx_elements.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 0831371..147be52 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -2332,7 +2332,15 @@ void Elements::updateEscapeCache(\
                                         intensityThreshold, nThreshold, alphaIn, thickness))
     {
         // not compatible, clear the detector cache
+        std::map<std::string, double> newComposition(composition);
         this->clearEscapeCache();
+        this->detectorCompositionUsedInCache.swap(newComposition);
+        this->detectorEnergyThresholdUsedInCache = energyThreshold;
+        this->detectorIntensityThresholdUsedInCache = intensityThreshold;
+        this->detectorNThresholdUsedInCache = nThreshold;
+        // std::cout << "Storing cache " << nThreshold << std::endl;
+        this->detectorAlphaInUsedInCache = alphaIn;
+        this->detectorThicknessUsedInCache = thickness;
     }
     for (i = 0; i < energyList.size(); ++i)
     {
@@ -2340,16 +2348,11 @@ void Elements::updateEscapeCache(\
         if (this->detectorEscapeCache.find(energy) == this->detectorEscapeCache.end())
         {
             // std::cout << "filling energy " << energy << std::endl;
-            this->detectorEscapeCache[energy] = this->getEscape(composition, energy, energyThreshold, \
-                                                                intensityThreshold, nThreshold, alphaIn, thickness);
+            std::map<std::string, std::map<std::string, double> > escape;
+            escape = this->getEscape(composition, energy, energyThreshold, \
+                                     intensityThreshold, nThreshold, alphaIn, thickness);
+            this->detectorEscapeCache[energy].swap(escape);
         }
-        this->detectorCompositionUsedInCache = composition;
-        this->detectorEnergyThresholdUsedInCache = energyThreshold;
-        this->detectorIntensityThresholdUsedInCache = intensityThreshold;
-        this->detectorNThresholdUsedInCache = nThreshold;
-        // std::cout << "Storing cache " << nThreshold << std::endl;
-        this->detectorAlphaInUsedInCache = alphaIn;
-        this->detectorThicknessUsedInCache = thickness;
     }
 }
 
-- 
2.43.0


From d33db9938c6542fc486f33af29f2cda93e603d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 25/63] fix: Elements::addElement left the library inconsistent
 on failure

---
 src/fisx_elements.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 147be52..8e1d13a 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -314,12 +314,21 @@ void Elements::addElement(const Element & element)
     if (this->elementDict.find(name) != this->elementDict.end())
     {
         // an element with that name already exists
-        this->elementList[this->elementDict[name]] = element;
+        Element newElement(element);
+        std::swap(this->elementList[this->elementDict[name]], newElement);
     }
     else
     {
-        this->elementDict[name] = (int) this->elementList.size();
         this->elementList.push_back(element);
+        try
+        {
+            this->elementDict[name] = (int) this->elementList.size() - 1;
+        }
+        catch(...)
+        {
+            this->elementList.pop_back();
+            throw;
+        }
     }
 }
 // Shell constants
-- 
2.43.0


From 5f2debd9ccef668ec7e57d088a3e8a0cc0d7af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 26/63] fix: Elements was left half updated when reading a
 shell file failed

---
 src/fisx_elements.cpp | 52 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 8e1d13a..da98f59 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -394,12 +394,20 @@ void Elements::setShellConstantsFile(const std::string & mainShellName, \
         subShells.push_back("M5");
     }
 
+    // work on a copy, a failure should leave this instance untouched
+    std::vector<Element> newElementList(this->elementList);
+    std::string newFileName(fileName);
     for (i = 0; i < nScans ; i++)
     {
         tmpLabels = sf.getScanLabels(i);
         tmpValues = sf.getScanData(i);
         nLabels = tmpLabels.size();
-        if (tmpValues[i].size() != nLabels)
+        if ((tmpValues.size() < 1) || (tmpValues.size() > newElementList.size()))
+        {
+            msg = "Number of elements not supported in " + fileName;
+            throw std::ios_base::failure(msg);
+        }
+        if (tmpValues[0].size() != nLabels)
         {
             msg = "Number of values does not match number of labels in " + fileName;
             throw std::ios_base::failure(msg);
@@ -431,10 +439,12 @@ void Elements::setShellConstantsFile(const std::string & mainShellName, \
                 }
 
             }
-            this->elementList[n].setShellConstants(subShells[i], tmpDict);
+            newElementList[n].setShellConstants(subShells[i], tmpDict);
         }
     }
-    this->shellConstantsFile[mainShellName] = fileName;
+    this->shellConstantsFile[mainShellName].swap(newFileName);
+    this->elementList.swap(newElementList);
+    this->clearEscapeCache();
 }
 
 void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShellName, \
@@ -502,12 +512,20 @@ void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShell
         subShells.push_back("M5");
     }
 
+    // work on a copy, a failure should leave this instance untouched
+    std::vector<Element> newElementList(this->elementList);
+    std::string newFileName(fileName);
     for (i = 0; i < nScans ; i++)
     {
         tmpLabels = sf.getScanLabels(i);
         tmpValues = sf.getScanData(i);
         nLabels = tmpLabels.size();
-        if (tmpValues[i].size() != nLabels)
+        if ((tmpValues.size() < 1) || (tmpValues.size() > newElementList.size()))
+        {
+            msg = "Number of elements not supported in " + fileName;
+            throw std::ios_base::failure(msg);
+        }
+        if (tmpValues[0].size() != nLabels)
         {
             msg = "Number of values does not match number of labels in " + fileName;
             throw std::ios_base::failure(msg);
@@ -523,14 +541,16 @@ void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShell
                 }
 
             }
-            bindingE = this->elementList[n].getBindingEnergies();
+            bindingE = newElementList[n].getBindingEnergies();
             if(bindingE[subShells[i]] > 0.0)
             {
-                this->elementList[n].setNonradiativeTransitions(subShells[i], tmpDict);
+                newElementList[n].setNonradiativeTransitions(subShells[i], tmpDict);
             }
         }
     }
-    this->shellNonradiativeTransitionsFile[mainShellName] = fileName;
+    this->shellNonradiativeTransitionsFile[mainShellName].swap(newFileName);
+    this->elementList.swap(newElementList);
+    this->clearEscapeCache();
 }
 
 void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellName, \
@@ -598,12 +618,20 @@ void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellNam
         subShells.push_back("M5");
     }
 
+    // work on a copy, a failure should leave this instance untouched
+    std::vector<Element> newElementList(this->elementList);
+    std::string newFileName(fileName);
     for (i = 0; i < nScans ; i++)
     {
         tmpLabels = sf.getScanLabels(i);
         tmpValues = sf.getScanData(i);
         nLabels = tmpLabels.size();
-        if (tmpValues[i].size() != nLabels)
+        if ((tmpValues.size() < 1) || (tmpValues.size() > newElementList.size()))
+        {
+            msg = "Number of elements not supported in " + fileName;
+            throw std::ios_base::failure(msg);
+        }
+        if (tmpValues[0].size() != nLabels)
         {
             msg = "Number of values does not match number of labels in " + fileName;
             throw std::ios_base::failure(msg);
@@ -619,14 +647,16 @@ void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellNam
                 }
 
             }
-            bindingE = this->elementList[n].getBindingEnergies();
+            bindingE = newElementList[n].getBindingEnergies();
             if(bindingE[subShells[i]] > 0.0)
             {
-                this->elementList[n].setRadiativeTransitions(subShells[i], tmpDict);
+                newElementList[n].setRadiativeTransitions(subShells[i], tmpDict);
             }
         }
     }
-    this->shellRadiativeTransitionsFile[mainShellName] = fileName;
+    this->shellRadiativeTransitionsFile[mainShellName].swap(newFileName);
+    this->elementList.swap(newElementList);
+    this->clearEscapeCache();
 }
 
 // Mass attenuation handling
-- 
2.43.0


From 555adc7e31b5c56df396c2cffa09ff10fd48d49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 27/63] fix: Elements was left half updated when setting mass
 attenuation coefficients failed

---
 src/fisx_elements.cpp | 56 +++++++++++++++++++++++++++++++++++--------
 src/fisx_elements.h   |  8 +++++++
 2 files changed, 54 insertions(+), 10 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index da98f59..59c3790 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -680,11 +680,21 @@ void Elements::setMassAttenuationCoefficientsFile(const std::string & fileName)
     {
         throw std::ios_base::failure("No scans found in file!");
     }
+    if (nScans > (int) this->elementList.size())
+    {
+        throw std::ios_base::failure("More scans than elements found in file!");
+    }
 
+    // work on a copy, a failure should leave this instance untouched
+    std::vector<Element> newElementList(this->elementList);
     for (n = 0; n < nScans; n++)
     {
         labels = sf.getScanLabels(n);
         data = sf.getScanData(n);
+        if ((data.size() < 1) || (data[0].size() != labels.size()))
+        {
+            throw std::ios_base::failure("Number of values does not match number of labels in " + fileName);
+        }
         muEnergy.clear();
         muPhotoelectric.clear();
         muCoherent.clear();
@@ -751,13 +761,15 @@ void Elements::setMassAttenuationCoefficientsFile(const std::string & fileName)
         // muCoherent.clear();
         // muCompton.clear();
         // muPair.clear();
-        this->setMassAttenuationCoefficients(this->elementList[n].getName(), \
+        this->setMassAttenuationCoefficients(newElementList[n], \
                                              muEnergy, \
                                              muPhotoelectric, \
                                              muCoherent, \
                                              muCompton, \
                                              muPair);
     }
+    this->elementList.swap(newElementList);
+    this->clearEscapeCache();
 }
 
 void Elements::setMassAttenuationCoefficients(const std::string & name,
@@ -766,13 +778,36 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
                                               const std::vector<double> & coherent,
                                               const std::vector<double> & compton,
                                               const std::vector<double> & pair)
+{
+    std::map<std::string, int>::const_iterator c_it;
+
+    c_it = this->elementDict.find(name);
+    if (c_it == this->elementDict.end())
+    {
+        throw std::invalid_argument("Name " + name + " not among defined elements");
+    }
+
+    // work on a copy, a failure should leave this instance untouched
+    Element newElement(this->elementList[c_it->second]);
+    this->setMassAttenuationCoefficients(newElement, energy, photoelectric, coherent, compton, pair);
+    std::swap(this->elementList[c_it->second], newElement);
+    this->clearEscapeCache();
+}
+
+void Elements::setMassAttenuationCoefficients(Element & destination,
+                                              const std::vector<double> & energy,
+                                              const std::vector<double> & photoelectric,
+                                              const std::vector<double> & coherent,
+                                              const std::vector<double> & compton,
+                                              const std::vector<double> & pair) const
 {
     std::map<std::string, std::vector<double> > massAttenuationCoefficients;
     std::map<std::string, std::vector<double> >::iterator it;
     std::map<std::string, std::pair<double, int> > extractedEdgeEnergies;
     std::vector<std::vector<double>::size_type> shellIndexList;
     std::string shellList[10] = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "all other"};
-    Element *element;
+    Element *element = &destination;
+    const std::string name = destination.getName();
     std::vector<double> newEnergyGrid;
     std::vector<double>::size_type i, j, shellIndex;
     std::vector<double> oldTotalPhotoelectric;
@@ -782,21 +817,21 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     int atomicNumber, idx;
 
 
-    if (this->elementDict.find(name) == this->elementDict.end())
+    if ((energy.size() < 1) || (photoelectric.size() != energy.size()) || \
+        (coherent.size() != energy.size()) || (compton.size() != energy.size()) || \
+        ((pair.size() > 0) && (pair.size() != energy.size())))
     {
-        msg = "Name " + name + " not among defined elements";
+        msg = "Mass attenuation coefficients of element " + name + " do not match the energies";
         throw std::invalid_argument(msg);
     }
 
-
     // we have to make sure the partial mass attenuation photoelectric coefficients and the total
     // photoelectric mass attenuation coefficients are self-consistent
     // we are doing this because the only compilation providing subshell photoelectric cross sections
     // is EPDL97
 
     // we reset the mass attenuation coefficients of the element to the EPDL97 values
-    element = &(this->elementList[this->elementDict[name]]);
-    atomicNumber = this->elementList[this->elementDict[name]].getAtomicNumber();
+    atomicNumber = (*element).getAtomicNumber();
     massAttenuationCoefficients = epdl97.getMassAttenuationCoefficients(atomicNumber);
 
     (*element).setMassAttenuationCoefficients(massAttenuationCoefficients["energy"],          \
@@ -818,7 +853,8 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     // first calculate the appropriate energy grid
 
     j = 0;
-    while(massAttenuationCoefficients["energy"][j] < energy[0])
+    while((j < massAttenuationCoefficients["energy"].size()) && \
+          (massAttenuationCoefficients["energy"][j] < energy[0]))
     {
         j++;
     }
@@ -867,7 +903,7 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
                     // We have to check if that energy is compatible with the binding energy.
                     // If the energy was below the binding energy of that shell, we have to make sure the point is considered
                     // (Problem with excitation of Pb at 14 keV when using XCOM cross sections)
-                    std::map<std::string, double> tmpMap = this->getBindingEnergies(name);
+                    std::map<std::string, double> tmpMap = (*element).getBindingEnergies();
                     if (extractedEdgeEnergies[shell].first < tmpMap[shell])
                     {
                         // I should interpolate in the supplied grid to get the proper value
@@ -933,7 +969,7 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     // pair
     for (i = j; i < newEnergyGrid.size(); i++)
     {
-        massAttenuationCoefficients["pair"][i] = pair[i - j];
+        massAttenuationCoefficients["pair"][i] = pair.size() ? pair[i - j] : 0.0;
     }
 
     // photoelectric
diff --git a/src/fisx_elements.h b/src/fisx_elements.h
index 73e590d..0918e2f 100644
--- a/src/fisx_elements.h
+++ b/src/fisx_elements.h
@@ -572,6 +572,14 @@ public:
     static std::string toString(const double& number);
 
 private:
+    // update the mass attenuation coefficients of the provided element
+    void setMassAttenuationCoefficients(Element & destination,
+                                        const std::vector<double> & energy,
+                                        const std::vector<double> & photoelectric,
+                                        const std::vector<double> & coherent,
+                                        const std::vector<double> & compton,
+                                        const std::vector<double> & pair) const;
+
 
     void initialize(std::string, std::string);
 
-- 
2.43.0


From 24e6daacecf9c14f5c097f201cff539cdd546324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 28/63] fix: EPDL97 was left empty or half loaded when loading
 data failed

---
 src/fisx_epdl97.cpp | 88 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 64 insertions(+), 24 deletions(-)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index d696faa..2518f1f 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -50,6 +50,9 @@ EPDL97::EPDL97()
 
 EPDL97::EPDL97(std::string directoryName)
 {
+    this->initialized = false;
+    this->bindingEnergiesFile = "Unknown";
+    this->crossSectionsFile = "Unknown";
     this->bindingEnergy.clear();
     this->muInputLabels.clear();
     this->muInputValues.clear();
@@ -61,17 +64,22 @@ EPDL97::EPDL97(std::string directoryName)
 
 void EPDL97::setDataDirectory(std::string directoryName)
 {
-    this->bindingEnergy.clear();
-    this->muInputLabels.clear();
-    this->muInputValues.clear();
-    this->muLabelToIndex.clear();
-    this->muEnergy.clear();
-    this->initialized = false;
-    this->bindingEnergiesFile = "Unknown";
-    this->crossSectionsFile = "Unknown";
-    this->loadData(directoryName);
-
+    // load everything in a separate instance, a failure should leave this instance untouched
+    EPDL97 loaded;
+
+    loaded.loadData(directoryName);
+
+    this->directoryName.swap(loaded.directoryName);
+    this->bindingEnergiesFile.swap(loaded.bindingEnergiesFile);
+    this->crossSectionsFile.swap(loaded.crossSectionsFile);
+    this->bindingEnergy.swap(loaded.bindingEnergy);
+    this->muInputLabels.swap(loaded.muInputLabels);
+    this->muLabelToIndex.swap(loaded.muLabelToIndex);
+    this->muInputValues.swap(loaded.muInputValues);
+    this->muEnergy.swap(loaded.muEnergy);
+    this->initialized = loaded.initialized;
 }
+
 void EPDL97::loadData(std::string directoryName)
 {
     std::string BINDING_ENERGIES="EADL97_BindingEnergies.dat";
@@ -87,7 +95,7 @@ void EPDL97::loadData(std::string directoryName)
     joinSymbol = "//";
 #endif
     // check if directoryName already ends with the joinSymbol
-    if (directoryName.substr(directoryName.size() - 1, 1) == joinSymbol)
+    if ((directoryName.size() > 0) && (directoryName.substr(directoryName.size() - 1, 1) == joinSymbol))
     {
         joinSymbol = "";
     }
@@ -100,6 +108,10 @@ void EPDL97::loadData(std::string directoryName)
     filename = directoryName + joinSymbol + CROSS_SECTIONS;
 //     clock_t startTime = clock();
     this->loadCrossSections(filename);
+    if (this->bindingEnergy.size() < this->muEnergy.size())
+    {
+        throw std::ios_base::failure("EPDL97: Not enough binding energies in " + this->bindingEnergiesFile);
+    }
 //     std::cout << "CROSS SECTIONS " << double( clock() - startTime ) / (double)CLOCKS_PER_SEC<< " seconds." << std::endl;
 
     //
@@ -120,6 +132,7 @@ void EPDL97::loadBindingEnergies(std::string fileName)
 
     std::vector<std::vector<double> > tmpValues;
     std::vector<std::map<std::string, double> >::size_type i;
+    std::vector<std::map<std::string, double> > newBindingEnergy;
     std::string key;
     std::string msg;
 
@@ -135,18 +148,28 @@ void EPDL97::loadBindingEnergies(std::string fileName)
     tmpLabels = sf.getScanLabels(0);
     tmpValues = sf.getScanData(0);
     nLabels = tmpLabels.size();
-    if (tmpValues[0].size() != nLabels)
+    if (tmpValues.size() < 1)
     {
-        std::cout << fileName;
-        std::cout << " nLabels = " << nLabels;
-        std::cout << " nValues = " << tmpValues[0].size();
-        throw std::ios_base::failure("EPDL97: Number of values does not match number of labels");
+        throw std::ios_base::failure("EPDL97: No values in binding energies file " + fileName);
     }
 
-    this->bindingEnergy.resize(tmpValues.size());
+    // work on a copy, a failure should leave this instance untouched
+    newBindingEnergy = this->bindingEnergy;
+    if (tmpValues.size() < this->muEnergy.size())
+    {
+        throw std::ios_base::failure("EPDL97: Not enough binding energies in " + fileName);
+    }
+    newBindingEnergy.resize(tmpValues.size());
 
-    for (i = 0; i < this->bindingEnergy.size(); i++)
+    for (i = 0; i < newBindingEnergy.size(); i++)
     {
+        if (tmpValues[i].size() != nLabels)
+        {
+            std::cout << fileName;
+            std::cout << " nLabels = " << nLabels;
+            std::cout << " nValues = " << tmpValues[i].size();
+            throw std::ios_base::failure("EPDL97: Number of values does not match number of labels");
+        }
         for (n = 1; n < nLabels; n++)
         {
             if (tmpLabels[n].substr(0, 1) == "K")
@@ -175,12 +198,12 @@ void EPDL97::loadBindingEnergies(std::string fileName)
                     }
                 }
             }
-            this->bindingEnergy[i][key] = tmpValues[i][n];
+            newBindingEnergy[i][key] = tmpValues[i][n];
         }
     }
-    this->bindingEnergiesFile = fileName;
-    // TODO, for a complete initialization some attenuation coefficients dhould be there
-    this->initialized = true;
+    // the instance is only initialized when the cross sections are also there
+    this->bindingEnergiesFile.swap(fileName);
+    this->bindingEnergy.swap(newBindingEnergy);
 }
 
 void EPDL97::loadCrossSections(std::string fileName)
@@ -284,10 +307,18 @@ void EPDL97::loadCrossSections(std::string fileName)
         }
         // read the data
         this->muInputValues[i] = sf.getScanData(i);
+        if (this->muInputValues[i].size() < 1)
+        {
+            throw std::ios_base::failure("EPDL97: Empty scan in cross sections file");
+        }
         this->muEnergy[i].resize(this->muInputValues[i].size());
         for (j = 0; j < this->muInputValues[i].size(); j++)
         {
             pVec = &(this->muInputValues[i][j]);
+            if ((*pVec).size() != nLabels)
+            {
+                throw std::ios_base::failure("EPDL97: Number of values does not match number of labels");
+            }
             this->muEnergy[i][j] = (*pVec)[this->muLabelToIndex["energy"]];
             // recalculate the photoelectric effect of the non considered shells
             (*pVec)[this->muLabelToIndex["photoelectric"]] = (*pVec)[this->muLabelToIndex["total"]]-\
@@ -341,8 +372,13 @@ void EPDL97::setBindingEnergies(const int & z, const std::map<std::string, doubl
         throw std::runtime_error("EPDL97 Atomic number should be positive");
     }
 
-    this->bindingEnergy[z - 1].clear();
-    this->bindingEnergy[z - 1] = bindingEnergies;
+    if (z > (int) this->bindingEnergy.size())
+    {
+        throw std::invalid_argument("EPDL97 No binding energies for the requested atomic number");
+    }
+
+    std::map<std::string, double> newBindingEnergies(bindingEnergies);
+    this->bindingEnergy[z - 1].swap(newBindingEnergies);
 }
 
 const std::map<std::string, double> & EPDL97::getBindingEnergies(const int & z)
@@ -351,6 +387,10 @@ const std::map<std::string, double> & EPDL97::getBindingEnergies(const int & z)
     {
         throw std::runtime_error("EPDL97 Atomic number should be positive");
     }
+    if (this->bindingEnergy.size() < 1)
+    {
+        throw std::runtime_error("EPDL97 Binding energies not initialized");
+    }
     if (z >= (int) this->bindingEnergy.size())
     {
         // Repeat for the elements beyond the last one
-- 
2.43.0


From aa1cf4748d820206f8d3fd5b663cb8c19ba1da74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 29/63] fix: EPDL97 extrapolation of shells without data read
 outside the data

---
 src/fisx_epdl97.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index 2518f1f..396ba8a 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -509,11 +509,16 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                                 // according to the binding energies, the shell is excited, but the
                                 // respective mass attenuation is zero. We have to extrapolate
                                 i1w = i1;
-                                while((*pVector)[i1w][idx] <= 0.0)
+                                while((i1w < (long) (*pVector).size()) && ((*pVector)[i1w][idx] <= 0.0))
                                 {
                                     i1w += 1;
                                 }
                                 i2w = i1w + 1;
+                                if (i2w >= (long) (*pVector).size())
+                                {
+                                    // nothing to extrapolate from
+                                    continue;
+                                }
                                 y0 = (*pVector)[i1w][idx];
                                 y1 = (*pVector)[i2w][idx];
                                 x0w = this->muEnergy[zHelp][i1w];
@@ -597,11 +602,16 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                         // extrapolation case
                         // We are forcing EPDL97 to respect a given set of binding energies
                         i1w = i1;
-                        while((*pVector)[i1w][idx] <= 0.0)
+                        while((i1w < (long) (*pVector).size()) && ((*pVector)[i1w][idx] <= 0.0))
                         {
                             i1w += 1;
                         }
                         i2w = i1w + 1;
+                        if (i2w >= (long) (*pVector).size())
+                        {
+                            // nothing to extrapolate from
+                            continue;
+                        }
                         y0 = (*pVector)[i1w][idx];
                         y1 = (*pVector)[i2w][idx];
                         x0w = this->muEnergy[zHelp][i1w];
-- 
2.43.0


From fb37cd50c625c38d43be838147843c55dda7407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 30/63] fix: Elements::addElement kept escape peaks calculated
 with the previous element

---
 src/fisx_elements.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 59c3790..7633756 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -330,6 +330,7 @@ void Elements::addElement(const Element & element)
             throw;
         }
     }
+    this->clearEscapeCache();
 }
 // Shell constants
 void Elements::setShellConstantsFile(const std::string & mainShellName, \
-- 
2.43.0


From 38fdcd400c4aa73d3f575539e2527b2a6792c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 31/63] fix: Elements::addMaterial lost the previous material
 when the replacement failed

---
 src/fisx_elements.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 7633756..30c2b3f 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1273,27 +1273,28 @@ void Elements::addMaterial(const std::string & name, const double & density, \
     std::string msg;
     Material material;
     std::map<std::string, double> composition;
+    std::vector<Material>::size_type i;
 
-    if (this->getMaterialIndexFromName(name) < this->materialList.size())
+    i = this->getMaterialIndexFromName(name);
+    if ((i < this->materialList.size()) && errorOnReplace)
     {
-        if (errorOnReplace)
-        {
-            msg = "Elements::createMaterial. Already existing material: " +  name;
-            throw std::invalid_argument(msg);
-        }
-        else
-        {
-            this->removeMaterial(name);
-        }
+        msg = "Elements::createMaterial. Already existing material: " +  name;
+        throw std::invalid_argument(msg);
     }
     material.initialize(name, density, thickness, comment);
-    this->materialList.push_back(material);
 
     // Try to set the composition from the name
     composition = this->getCompositionFromFormula(name);
     if (composition.size() > 0)
     {
-        this->setMaterialComposition(name, composition);
+        material.setComposition(composition);
+    }
+
+    // the previous material is only removed once the new one is in place
+    this->materialList.push_back(material);
+    if (i < (this->materialList.size() - 1))
+    {
+        this->materialList.erase(this->materialList.begin() + i);
     }
 }
 
@@ -1391,7 +1392,8 @@ void Elements::addMaterial(const Material & material, const int & errorOnReplace
         else
         {
             // try to use the same position
-            this->materialList[i] = material;
+            Material newMaterial(material);
+            std::swap(this->materialList[i], newMaterial);
         }
     }
     else
-- 
2.43.0


From 76df5bf2db4d4ee50a181ea620b4bf93618f6a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 32/63] fix: Elements formula parsing took lack of memory for
 invalid numbers

---
 src/fisx_elements.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 30c2b3f..94d3c7b 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -2052,6 +2052,8 @@ bool Elements::stringToDouble(const std::string& str, double& number)
 
     std::istringstream i(str);
 
+    // report errors other than conversion errors (lack of memory)
+    i.exceptions(std::ios_base::badbit);
     if (!(i >> number))
     {
         // Number conversion failed
@@ -2063,6 +2065,8 @@ bool Elements::stringToDouble(const std::string& str, double& number)
 std::string Elements::toString(const double& number)
 {
     std::ostringstream ss;
+    // report errors (lack of memory)
+    ss.exceptions(std::ios_base::badbit);
     ss << number;
     std::string s(ss.str());
     return s;
-- 
2.43.0


From 52c5ca0837e3cbb6521067cd28e41fc4e0ab28fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 33/63] fix: Elements::getComposition wrote to the standard
 output

---
 src/fisx_elements.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 94d3c7b..3d6171c 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1587,7 +1587,6 @@ std::map<std::string, double> Elements::getComposition(const std::string & name,
     {
         total += c_it->second;
     }
-    std::cout << "total = " << total << std::endl;
     for (c_it = result.begin(); c_it != result.end(); ++c_it)
     {
         result[c_it->first] /= total;
-- 
2.43.0


From 7419072fff9fa9f2cebb28b2d7f42263ca804a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 34/63] fix: Elements read outside an empty directory name

---
 src/fisx_elements.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 3d6171c..b0f7a65 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -92,7 +92,7 @@ Elements::Elements(std::string directoryName, short pymca)
 #endif // __WIN32
 
     // check if directoryName already ends with the joinSymbol
-    if (directoryName.substr(directoryName.size() - 1, 1) == joinSymbol)
+    if ((directoryName.size() > 0) && (directoryName.substr(directoryName.size() - 1, 1) == joinSymbol))
     {
         joinSymbol = "";
     }
@@ -227,7 +227,7 @@ void Elements::initialize(std::string epdl97Directory, std::string bindingEnergi
 #endif
 
     // check if epdl97Directory already ends with the joinSymbol
-    if (epdl97Directory.substr(epdl97Directory.size() - 1, 1) == joinSymbol)
+    if ((epdl97Directory.size() > 0) && (epdl97Directory.substr(epdl97Directory.size() - 1, 1) == joinSymbol))
     {
         joinSymbol = "";
     }
-- 
2.43.0


From 34a1e52232158060ebc02b7a20bb9f7c963b7e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 35/63] fix: TransmissionTable was left half updated when
 setting it failed

---
 src/fisx_transmissiontable.cpp | 40 +++++++++++++++-------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/fisx_transmissiontable.cpp b/src/fisx_transmissiontable.cpp
index 7e876a6..8131739 100644
--- a/src/fisx_transmissiontable.cpp
+++ b/src/fisx_transmissiontable.cpp
@@ -104,16 +104,13 @@ void TransmissionTable::setTransmissionTable(const std::map<double, double> & ta
         throw std::invalid_argument(msg);
     }
 
-    // assign the values
-    this->transmissionTable = table;
-    if (name.size() > 0)
-    {
-        this->name = name;
-    }
-    if (comment.size() > 0)
-    {
-        this->comment = comment;
-    }
+    // assign the values, a failure should leave this instance untouched
+    std::map<double, double> newTable(table);
+    std::string newName(name.size() > 0 ? name : this->name);
+    std::string newComment(comment.size() > 0 ? comment : this->comment);
+    this->transmissionTable.swap(newTable);
+    this->name.swap(newName);
+    this->comment.swap(newComment);
 }
 
 void TransmissionTable::setTransmissionTable(const std::vector<double> & energy, \
@@ -169,30 +166,27 @@ void TransmissionTable::setTransmissionTable(const std::vector<double> & energy,
         }
     }
 
-    // fill the table
-    this->transmissionTable.clear();
+    // fill the table, a failure should leave this instance untouched
+    std::map<double, double> newTable;
     for (i = 0; i < energy.size(); ++i)
     {
         // avoid problems with duplicated energies
-        if (this->transmissionTable.find(energy[i]) != this->transmissionTable.end())
+        if (newTable.find(energy[i]) != newTable.end())
         {
             // create the entry at at energy 0.001 eV higher
-            this->transmissionTable[energy[i] + 0.000001] = transmission[i];
+            newTable[energy[i] + 0.000001] = transmission[i];
         }
         else
         {
-            this->transmissionTable[energy[i]] = transmission[i];
+            newTable[energy[i]] = transmission[i];
         }
 
     }
-    if (name.size() > 0)
-    {
-        this->name = name;
-    }
-    if (comment.size() > 0)
-    {
-        this->comment = comment;
-    }
+    std::string newName(name.size() > 0 ? name : this->name);
+    std::string newComment(comment.size() > 0 ? comment : this->comment);
+    this->transmissionTable.swap(newTable);
+    this->name.swap(newName);
+    this->comment.swap(newComment);
 }
 
 
-- 
2.43.0


From 0116d5225ae98348c4f756d3e5dd609543202367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 36/63] fix: Layer was left with a half copied material on
 failure

---
 src/fisx_layer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fisx_layer.cpp b/src/fisx_layer.cpp
index 16b509f..29121f4 100644
--- a/src/fisx_layer.cpp
+++ b/src/fisx_layer.cpp
@@ -70,7 +70,9 @@ void Layer::setMaterial(const std::string & materialName)
 
 void Layer::setMaterial(const Material & material)
 {
-    this->material = material;
+    // work on a copy, a failure should leave this instance untouched
+    Material newMaterial(material);
+    std::swap(this->material, newMaterial);
     if (this->density < 0.0)
     {
         this->density = this->material.getDefaultDensity();
-- 
2.43.0


From 8877163bc03434e78d9cbd71abb0713a6dd3d7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 37/63] fix: Element extrapolation of shells without data read
 outside the data

---
 src/fisx_element.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 89e3a4c..3196ec9 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -797,11 +797,16 @@ std::map<std::string, double> \
                         // according to the binding energies, the shell is excited, but the
                         // respective mass attenuation is zero. We have to extrapolate
                         i1w = i1;
-                        while(y_it->second[i1w] <= 0.0)
+                        while((i1w < (long) y_it->second.size()) && (y_it->second[i1w] <= 0.0))
                         {
                             i1w += 1;
                         }
                         i2w = i1w + 1;
+                        if (i2w >= (long) y_it->second.size())
+                        {
+                            // nothing to extrapolate from
+                            continue;
+                        }
                         y0 = y_it->second[i1w];
                         y1 = y_it->second[i2w];
                         x0w = c_it->second[i1w];
@@ -857,15 +862,20 @@ std::map<std::string, double> \
                     // respective mass attenuation is zero. We have to extrapolate
                     // std::cout << "case b2" << std::endl;
                     i1w = i1;
-                    while(y_it->second[i1w] <= 0.0)
+                    while((i1w < (long) y_it->second.size()) && (y_it->second[i1w] <= 0.0))
                     {
                         i1w += 1;
                     }
                     i2w = i1w + 1;
+                    if (i2w >= (long) y_it->second.size())
+                    {
+                        // nothing to extrapolate from
+                        continue;
+                    }
                     x0w = c_it->second[i1w];
                     x1w = c_it->second[i2w];
                     // check for duplicates
-                    if ((x1w - x0w) < 1.0E-10)
+                    if (((x1w - x0w) < 1.0E-10) && ((i2w + 1) < (long) y_it->second.size()))
                     {
                         i1w += 1;
                         i2w += 1;
-- 
2.43.0


From 1c33f501291f1aab0f893ff6da4f382fe876f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 38/63] fix: XRFConfig setters left a half assigned setting on
 failure

---
 src/fisx_xrfconfig.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 065c635..46c763e 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -600,12 +600,15 @@ const Beam & XRFConfig::getBeam() const
 
 void XRFConfig::setBeamFilters(const std::vector<Layer> & filters)
 {
-    this->beamFilters = filters;
+    // copy first, a failure should leave this instance untouched
+    std::vector<Layer> newFilters(filters);
+    this->beamFilters.swap(newFilters);
 }
 
 void XRFConfig::setUserBeamFilters(const std::vector<TransmissionTable> & transmissionTables)
 {
-    this->userBeamFilters = transmissionTables;
+    std::vector<TransmissionTable> newTables(transmissionTables);
+    this->userBeamFilters.swap(newTables);
 }
 
 void XRFConfig::setSample(const std::vector<Layer> & layers, const int & referenceLayer)
@@ -614,23 +617,27 @@ void XRFConfig::setSample(const std::vector<Layer> & layers, const int & referen
     {
         throw std::invalid_argument("Reference layer must be smaller than number of layers");
     }
-    this->sample = layers;
+    std::vector<Layer> newSample(layers);
+    this->sample.swap(newSample);
     this->referenceLayer = referenceLayer;
 }
 
 void XRFConfig::setAttenuators(const std::vector<Layer> & attenuators)
 {
-    this->attenuators = attenuators;
+    std::vector<Layer> newAttenuators(attenuators);
+    this->attenuators.swap(newAttenuators);
 }
 
 void XRFConfig::setUserAttenuators(const std::vector<TransmissionTable> & transmissionTables)
 {
-    this->userAttenuators = transmissionTables;
+    std::vector<TransmissionTable> newTables(transmissionTables);
+    this->userAttenuators.swap(newTables);
 }
 
 void XRFConfig::setDetector(const Detector & detector)
 {
-    this->detector = detector;
+    Detector newDetector(detector);
+    std::swap(this->detector, newDetector);
 }
 
 std::ostream& operator<< (std::ostream& o, XRFConfig const& config)
-- 
2.43.0


From dda8601e1cd8b98b1fa566f2c501ab2beac1d59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 39/63] fix: SimpleSpecfile lost the data of scans not followed
 by an empty line

---
 src/fisx_simplespecfile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fisx_simplespecfile.cpp b/src/fisx_simplespecfile.cpp
index c095ef9..4c6ce53 100644
--- a/src/fisx_simplespecfile.cpp
+++ b/src/fisx_simplespecfile.cpp
@@ -71,6 +71,11 @@ void SimpleSpecfile::setFileName(std::string fileName)
         {
             if (line.substr(0, 2) == "#S")
             {
+                if (startLine >= 0)
+                {
+                    // a new scan ends the previous one
+                    newFilePositions.back().second = numberOfLines;
+                }
                 startLine = numberOfLines;
                 newFilePositions.push_back(std::make_pair(startLine, startLine));
                 endLine = -1;
-- 
2.43.0


From d1863a6a75949daf193d81c3148993f7a1ce1dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 40/63] fix: SimpleSpecfile took a data line of a single digit
 as the end of the scan

---
 src/fisx_simplespecfile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fisx_simplespecfile.cpp b/src/fisx_simplespecfile.cpp
index 4c6ce53..9c6ab21 100644
--- a/src/fisx_simplespecfile.cpp
+++ b/src/fisx_simplespecfile.cpp
@@ -84,7 +84,8 @@ void SimpleSpecfile::setFileName(std::string fileName)
         }
         else
         {
-            if(startLine >= 0)
+            // a single digit is data, not the end of the scan
+            if((startLine >= 0) && (line.empty() || (!isdigit((unsigned char) line[0]))))
             {
                 startLine = -1;
                 endLine = numberOfLines;
-- 
2.43.0


From 4a3386d016b7aa26713975152bd05f544c0bc5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 41/63] fix: Elements::setMassAttenuationCoefficients accepted
 some tables not in ascending energy order

---
 src/fisx_elements.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index b0f7a65..b195e6c 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -825,6 +825,14 @@ void Elements::setMassAttenuationCoefficients(Element & destination,
         msg = "Mass attenuation coefficients of element " + name + " do not match the energies";
         throw std::invalid_argument(msg);
     }
+    for (i = 1; i < energy.size(); i++)
+    {
+        if (energy[i] < energy[i - 1])
+        {
+            msg = "Mass attenuation coefficients of element " + name + " not in ascending energy order";
+            throw std::invalid_argument(msg);
+        }
+    }
 
     // we have to make sure the partial mass attenuation photoelectric coefficients and the total
     // photoelectric mass attenuation coefficients are self-consistent
-- 
2.43.0


From 746f0bd470e92dad940e728ebc3147dd9aacf3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 42/63] fix: Elements::getMassAttenuationCoefficients read past
 its elements with an undefined element in the composition

---
 src/fisx_elements.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index b195e6c..b220443 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1243,6 +1243,11 @@ std::map<std::string, std::vector<double> > Elements::getMassAttenuationCoeffici
             massFraction = c_it->second / total;
             element = c_it->first;
             mapIterator = this->elementDict.find(element);
+            if (mapIterator == this->elementDict.end())
+            {
+                msg = "Name " + element + " not among defined elements";
+                throw std::invalid_argument(msg);
+            }
             tmpResult = this->elementList[mapIterator->second].getMassAttenuationCoefficients(energy[n]);
             result["coherent"][n] += tmpResult["coherent"] * massFraction;
             result["compton"][n] += tmpResult["compton"] * massFraction;
-- 
2.43.0


From 59fbab18be2d1e2aea4489c7f8b5ccc38139b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 43/63] fix: SimpleSpecfile took a header line consisting of a
 single character as the end of the scan

---
 src/fisx_simplespecfile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fisx_simplespecfile.cpp b/src/fisx_simplespecfile.cpp
index 9c6ab21..7190b7d 100644
--- a/src/fisx_simplespecfile.cpp
+++ b/src/fisx_simplespecfile.cpp
@@ -84,8 +84,8 @@ void SimpleSpecfile::setFileName(std::string fileName)
         }
         else
         {
-            // a single digit is data, not the end of the scan
-            if((startLine >= 0) && (line.empty() || (!isdigit((unsigned char) line[0]))))
+            // only an empty line ends the scan, a single digit is data
+            if((startLine >= 0) && (line.empty() || isspace((unsigned char) line[0])))
             {
                 startLine = -1;
                 endLine = numberOfLines;
-- 
2.43.0


From 7e04b47139e225a446d4d3a86d78f6cfa7ef5e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 44/63] fix: report every library error to Python instead of
 ending the interpreter

---
 python/cython/Beam.pxd              |  4 ++--
 python/cython/EPDL97.pxd            |  2 +-
 python/cython/Element.pxd           |  2 +-
 python/cython/Elements.pxd          |  6 +++---
 python/cython/Layer.pxd             |  8 ++++----
 python/cython/Material.pxd          |  2 +-
 python/cython/Math.pxd              |  2 +-
 python/cython/Shell.pxd             | 12 ++++++------
 python/cython/TransmissionTable.pxd | 16 ++++++++--------
 python/cython/Version.pxd           |  2 +-
 10 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/python/cython/Beam.pxd b/python/cython/Beam.pxd
index 795f9b4..184d0e1 100644
--- a/python/cython/Beam.pxd
+++ b/python/cython/Beam.pxd
@@ -37,8 +37,8 @@ from Beam cimport *
 
 cdef extern from "fisx_beam.h" namespace "fisx":
     cdef cppclass Beam:
-        Beam()
+        Beam() except +
 
         void setBeam(std_vector[double], std_vector[double], std_vector[int], std_vector[double]) except +
 
-        std_vector[std_vector[double]] getBeamAsDoubleVectors()
+        std_vector[std_vector[double]] getBeamAsDoubleVectors() except +
diff --git a/python/cython/EPDL97.pxd b/python/cython/EPDL97.pxd
index ac0f035..dfe933a 100644
--- a/python/cython/EPDL97.pxd
+++ b/python/cython/EPDL97.pxd
@@ -38,7 +38,7 @@ cdef extern from "fisx_epdl97.h" namespace "fisx":
         EPDL97(std_string) except +
         void setDataDirectory(std_string) except +        
         void setBindingEnergies(int, std_map[std_string, double])  except +
-        std_map[std_string, double] & getBindingEnergies(int)
+        std_map[std_string, double] & getBindingEnergies(int) except +
                                                 
         std_map[std_string, std_vector[double]] getMassAttenuationCoefficients(int) except +
         std_map[std_string, double] getMassAttenuationCoefficients(int, double) except +
diff --git a/python/cython/Element.pxd b/python/cython/Element.pxd
index ad738a1..f9bac53 100644
--- a/python/cython/Element.pxd
+++ b/python/cython/Element.pxd
@@ -45,7 +45,7 @@ cdef extern from "fisx_element.h" namespace "fisx":
         
         void setBindingEnergies(std_map[std_string, double])  except +
         # void setBindingEnergies(std_vector[std_string], std_vector[double])
-        std_map[std_string, double] & getBindingEnergies()
+        std_map[std_string, double] & getBindingEnergies() except +
 
         void setMassAttenuationCoefficients(std_vector[double],\
                                             std_vector[double],\
diff --git a/python/cython/Elements.pxd b/python/cython/Elements.pxd
index d9d60d7..ebbbd18 100644
--- a/python/cython/Elements.pxd
+++ b/python/cython/Elements.pxd
@@ -49,9 +49,9 @@ cdef extern from "fisx_elements.h" namespace "fisx":
         int getColumn(std_string) except + 
         int getRow(std_string) except + 
 
-        std_vector[std_string] getElementNames()
+        std_vector[std_string] getElementNames() except +
 
-        std_vector[std_string] getMaterialNames()
+        std_vector[std_string] getMaterialNames() except +
 
         std_map[std_string, double] getComposition(std_string) except +
 
@@ -149,4 +149,4 @@ cdef extern from "fisx_elements.h" namespace "fisx":
 
         int getCacheSize(std_string) except+
 
-        void removeMaterials()
+        void removeMaterials() except +
diff --git a/python/cython/Layer.pxd b/python/cython/Layer.pxd
index f40c34c..2a4cc94 100644
--- a/python/cython/Layer.pxd
+++ b/python/cython/Layer.pxd
@@ -39,12 +39,12 @@ from Material cimport *
 
 cdef extern from "fisx_layer.h" namespace "fisx":
     cdef cppclass Layer:
-        Layer(std_string, double, double, double)
+        Layer(std_string, double, double, double) except +
 
-        std_map[std_string, double] getComposition(Elements)
+        std_map[std_string, double] getComposition(Elements) except +
 
-        std_vector[double] getTransmission(std_vector[double], Elements, double)
+        std_vector[double] getTransmission(std_vector[double], Elements, double) except +
 
-        void setMaterial(Material)
+        void setMaterial(Material) except +
 
         std_vector[std_pair[std_string, double]] getPeakFamilies(double, Elements) except +
diff --git a/python/cython/Material.pxd b/python/cython/Material.pxd
index 27353bb..c256e61 100644
--- a/python/cython/Material.pxd
+++ b/python/cython/Material.pxd
@@ -37,7 +37,7 @@ cdef extern from "fisx_material.h" namespace "fisx":
     cdef cppclass Material:
         Material(std_string, double, double, std_string) except +
 
-        std_string getName()
+        std_string getName() except +
 
         void setName(std_string) except +
 
diff --git a/python/cython/Math.pxd b/python/cython/Math.pxd
index 84a5622..eefc36c 100644
--- a/python/cython/Math.pxd
+++ b/python/cython/Math.pxd
@@ -33,7 +33,7 @@ from libcpp.vector cimport vector as std_vector
 
 cdef extern from "fisx_math.h" namespace "fisx":
     cdef cppclass Math:
-        Math()
+        Math() except +
 
         double E1(double) except +
         
diff --git a/python/cython/Shell.pxd b/python/cython/Shell.pxd
index b7b0ed2..44c0d3f 100644
--- a/python/cython/Shell.pxd
+++ b/python/cython/Shell.pxd
@@ -37,12 +37,12 @@ cdef extern from "fisx_shell.h" namespace "fisx":
     cdef cppclass Shell:
         Shell(std_string) except +
         void setRadiativeTransitions(std_vector[std_string], std_vector[double]) except +
-        std_map[std_string, double] & getShellConstants()
-        std_map[std_string, double] & getAugerRatios()
-        std_map[std_string, std_map[std_string, double]] & getCosterKronigRatios()
-        std_map[std_string, double] & getFluorescenceRatios()
-        std_map[std_string, double] & getRadiativeTransitions()
-        std_map[std_string, double] & getNonradiativeTransitions()
+        std_map[std_string, double] & getShellConstants() except +
+        std_map[std_string, double] & getAugerRatios() except +
+        std_map[std_string, std_map[std_string, double]] & getCosterKronigRatios() except +
+        std_map[std_string, double] & getFluorescenceRatios() except +
+        std_map[std_string, double] & getRadiativeTransitions() except +
+        std_map[std_string, double] & getNonradiativeTransitions() except +
         std_map[std_string, double] getDirectVacancyTransferRatios(std_string) except +
         void setNonradiativeTransitions(std_vector[std_string], std_vector[double]) except +
         void setShellConstants(std_map[std_string, double]) except +
diff --git a/python/cython/TransmissionTable.pxd b/python/cython/TransmissionTable.pxd
index f18cc09..e252e0e 100644
--- a/python/cython/TransmissionTable.pxd
+++ b/python/cython/TransmissionTable.pxd
@@ -35,14 +35,14 @@ from libcpp.map cimport map as std_map
 
 cdef extern from "fisx_transmissiontable.h" namespace "fisx":
     cdef cppclass TransmissionTable:
-        TransmissionTable()
-        std_string getComment()
-        std_string getName()
-        void setComment(std_string)
-        void setName(std_string)
-        std_vector[double] getTransmission(std_vector[double])
-        double getTransmission(double)
-        std_map[double, double] getTransmissionTable()
+        TransmissionTable() except +
+        std_string getComment() except +
+        std_string getName() except +
+        void setComment(std_string) except +
+        void setName(std_string) except +
+        std_vector[double] getTransmission(std_vector[double]) except +
+        double getTransmission(double) except +
+        std_map[double, double] getTransmissionTable() except +
         void setTransmissionTable(std_map[double, double],
                                   std_string,
                                   std_string) except +
diff --git a/python/cython/Version.pxd b/python/cython/Version.pxd
index abd1110..bfba16d 100644
--- a/python/cython/Version.pxd
+++ b/python/cython/Version.pxd
@@ -33,4 +33,4 @@ from libcpp.string cimport string as std_string
 
 cdef extern from "fisx_version.h" namespace "fisx":
 
-    std_string fisxVersion()
+    std_string fisxVersion() except +
-- 
2.43.0


From 8849e3e84c2f189b4d567090d79e96ec41ca8fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 45/63] fix: keep the library usable when initializeAsPyMca
 fails

---
 python/cython/PyElements.pyx | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index 548974e..a28b591 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -87,15 +87,9 @@ cdef class PyElements:
         directoryName = DataDir.FISX_DATA_DIR
         bindingEnergies = getDataFile("BindingEnergies.dat")
         xcomFile = getDataFile("XCOM_CrossSections.dat")
-        del self.thisptr
-        self.thisptr = new Elements(toBytes(directoryName), toBytes(bindingEnergies), toBytes(xcomFile))
-        for shell in ["K", "L", "M"]:
-            shellConstantsFile = getDataFile(shell+"ShellConstants.dat")
-            self.thisptr.setShellConstantsFile(toBytes(shell),
-                                               toBytes(shellConstantsFile))
-        for shell in ["K", "L", "M"]:
-            radiativeRatesFile = getDataFile(shell+"ShellRates.dat")
-            self.thisptr.setShellRadiativeTransitionsFile(toBytes(shell), toBytes(radiativeRatesFile))
+        shellConstantsFiles = [getDataFile(shell+"ShellConstants.dat") for shell in ["K", "L", "M"]]
+        radiativeRatesFiles = [getDataFile(shell+"ShellRates.dat") for shell in ["K", "L", "M"]]
+        self.__replaceData(directoryName, bindingEnergies, xcomFile, shellConstantsFiles, radiativeRatesFiles)
 
     def __initializeAsPyMcaOld(self):
         """
@@ -113,15 +107,23 @@ cdef class PyElements:
             dataDir = directoryName
         bindingEnergies = os.path.join(dataDir, "BindingEnergies.dat")
         xcomFile = os.path.join(dataDir, "XCOM_CrossSections.dat")
+        shellConstantsFiles = [os.path.join(dataDir, shell+"ShellConstants.dat") for shell in ["K", "L", "M"]]
+        radiativeRatesFiles = [os.path.join(dataDir, shell+"ShellRates.dat") for shell in ["K", "L", "M"]]
+        self.__replaceData(directoryName, bindingEnergies, xcomFile, shellConstantsFiles, radiativeRatesFiles)
+
+    def __replaceData(self, directoryName, bindingEnergies, xcomFile, shellConstantsFiles, radiativeRatesFiles):
+        # the current library is only given up once the new one is complete
+        cdef Elements *library = new Elements(toBytes(directoryName), toBytes(bindingEnergies), toBytes(xcomFile))
+        try:
+            for shell, fileName in zip(["K", "L", "M"], shellConstantsFiles):
+                library.setShellConstantsFile(toBytes(shell), toBytes(fileName))
+            for shell, fileName in zip(["K", "L", "M"], radiativeRatesFiles):
+                library.setShellRadiativeTransitionsFile(toBytes(shell), toBytes(fileName))
+        except:
+            del library
+            raise
         del self.thisptr
-        self.thisptr = new Elements(toBytes(directoryName), toBytes(bindingEnergies), toBytes(xcomFile))
-        for shell in ["K", "L", "M"]:
-            shellConstantsFile = os.path.join(dataDir, shell+"ShellConstants.dat")
-            self.thisptr.setShellConstantsFile(toBytes(shell), toBytes(shellConstantsFile))
-
-        for shell in ["K", "L", "M"]:
-            radiativeRatesFile = os.path.join(dataDir, shell+"ShellRates.dat")
-            self.thisptr.setShellRadiativeTransitionsFile(toBytes(shell), toBytes(radiativeRatesFile))
+        self.thisptr = library
 
     def getElementNames(self):
         return toStringList(self.thisptr.getElementNames())
-- 
2.43.0


From 66764459ab788f7cb6c539c67f3abd7917a93cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 46/63] fix: accept text wherever the Python classes expect
 names

---
 python/cython/PyElements.pyx | 13 ++++++++-----
 python/cython/PyXRF.pyx      |  4 ++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index a28b591..689108b 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -143,7 +143,7 @@ cdef class PyElements:
     def getColumn(self, element):
         return self.thisptr.getColumn(toBytes(element))
 
-    def getRow(self, std_string element):
+    def getRow(self, element):
         return self.thisptr.getRow(toBytes(element))
 
     def getMaterialNames(self):
@@ -193,13 +193,13 @@ cdef class PyElements:
             return toString(self.thisptr.getShellNonradiativeTransitionsFile(toBytes(mainShellName)))
 
     def setMassAttenuationCoefficients(self,
-                                       std_string element,
+                                       element,
                                        std_vector[double] energies,
                                        std_vector[double] photo,
                                        std_vector[double] coherent,
                                        std_vector[double] compton,
                                        std_vector[double] pair):
-        self.thisptr.setMassAttenuationCoefficients(element,
+        self.thisptr.setMassAttenuationCoefficients(toBytes(element),
                                                     energies,
                                                     photo,
                                                     coherent,
@@ -252,7 +252,7 @@ cdef class PyElements:
         calculated values via log-log interpolation in the internal table.
         """
         if hasattr(name, "keys"):
-            return self._getMaterialMassAttenuationCoefficients(toBytes(name), energy)
+            return self._getMaterialMassAttenuationCoefficients(toBytesKeys(name), energy)
         elif energy is None:
             return self._getElementDefaultMassAttenuationCoefficients(toBytes(name))
         elif hasattr(energy, "__len__"):
@@ -298,7 +298,10 @@ cdef class PyElements:
 
     def _getMassAttenuationCoefficients(self, std_map[std_string, double] elementDict,
                                               std_vector[double] energy):
-        return self.thisptr.getMassAttenuationCoefficients(elementDict, energy, 0)
+        if sys.version < "3.0":
+            return self.thisptr.getMassAttenuationCoefficients(elementDict, energy, 0)
+        else:
+            return toStringKeys(self.thisptr.getMassAttenuationCoefficients(elementDict, energy, 0))
 
     def _getExcitationFactors(self, std_string element,
                                    std_vector[double] energies,
diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index ba9c190..d0fa37d 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -42,9 +42,9 @@ from Beam cimport *
 cdef class PyXRF:
     cdef XRF *thisptr
 
-    def __cinit__(self, std_string configurationFile=""):
+    def __cinit__(self, configurationFile=""):
         if len(configurationFile):
-            self.thisptr = new XRF(configurationFile)
+            self.thisptr = new XRF(toBytes(configurationFile))
         else:
             self.thisptr = new XRF()
 
-- 
2.43.0


From 0d30a9ae613346b47ba320dcb34bdf4b07df0f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 47/63] fix: accept TransmissionTable instances as user filters
 and attenuators

---
 python/cython/PyXRF.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index d0fa37d..6e3a589 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -125,8 +125,8 @@ cdef class PyXRF:
         cdef TransmissionTable t
         if instantiated:
             for item in pyTransmissionTableList:
-                name = item.getName()
-                comment = item.getComment()
+                name = toBytes(item.getName())
+                comment = toBytes(item.getComment())
                 table = item.getTransmissionTable()
                 t = TransmissionTable()
                 t.setTransmissionTable(table, name, comment)
-- 
2.43.0


From d96a3d3a9b9af768e0d0a0b6694dae872e57e8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 48/63] fix: XRF.getLayerPeakFamilies always failed

---
 python/cython/PyXRF.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index 6e3a589..0d7a531 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -298,10 +298,11 @@ cdef class PyXRF:
                              PyElements elementsLibrary):
         cdef std_map[std_string, double] composition
         composition.clear()
-        return toStringKeys(self.thisptr.getLayerPeakFamilies( \
+        tmpResult = self.thisptr.getLayerPeakFamilies( \
                                     deref(layerInstance.thisptr), \
                                     energy, deref(elementsLibrary.thisptr), \
-                                    composition))
+                                    composition)
+        return [(toString(x.first), x.second) for x in tmpResult]
 
     def getMultilayerFluorescence(self, elementFamilyLayer, PyElements elementsLibrary, \
                             int secondary = 0, int useGeometricEfficiency = 1, int useMassFractions = 0, \
-- 
2.43.0


From 42bda7eeb192a73598e028b30b4be6df764b4892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 49/63] fix: accept numpy arrays as beam weights

---
 python/cython/PyBeam.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/cython/PyBeam.pyx b/python/cython/PyBeam.pyx
index 98ed91c..6f9216a 100644
--- a/python/cython/PyBeam.pyx
+++ b/python/cython/PyBeam.pyx
@@ -54,7 +54,11 @@ cdef class PyBeam:
             energies = numpy.array([energies], dtype=numpy.float64)
         else:
             energies = numpy.asarray(energies, dtype=numpy.float64)
-        if weights:
+        if not hasattr(weights, "__len__"):
+            useWeights = bool(weights)
+        else:
+            useWeights = len(weights) > 0
+        if useWeights:
             if not hasattr(weights, "__len__"):
                 weights = numpy.array([weights], numpy.float64)
             else:
-- 
2.43.0


From e3b3bf03bd0d4cadbe9e1232f2d6de424fc7bf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 50/63] fix: XRF.getFluorescence accepts a single element and a
 single family

---
 python/cython/PyXRF.pyx | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index 0d7a531..3d391b4 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -401,10 +401,7 @@ cdef class PyXRF:
         cdef std_vector[int] dummyIntVec
         cdef std_vector[double] dummyDoubleVec
 
-        if hasattr(elementNames[0], "__len__"):
-            # we have received a list of elements
-            pass
-        else:
+        if isinstance(elementNames, (str, bytes)):
             # we have a single element, convert to list
             elementNames = [elementNames]
 
@@ -415,11 +412,8 @@ cdef class PyXRF:
             # we should have received an integer, convert to list
             sampleLayer = [sampleLayer]
 
-        if len(lineFamily) and hasattr(lineFamily, "__len__"):
-            # we have received a list of peak families
-            pass
-        else:
-            # we should have a peak family, convert to list
+        if isinstance(lineFamily, (str, bytes)):
+            # we have a single peak family, convert to list
             lineFamily = [lineFamily]
 
         # check the sizes match
-- 
2.43.0


From ce0fc231bcc8f9a4d1bbc63482bc925dc4f322e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:27 +0000
Subject: [PATCH 51/63] fix: passing None for an object is an error instead of
 a crash

---
 python/cython/PyDetector.pyx |  6 +++---
 python/cython/PyElements.pyx |  2 +-
 python/cython/PyLayer.pyx    |  8 ++++----
 python/cython/PyXRF.pyx      | 40 ++++++++++++++++++------------------
 4 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/python/cython/PyDetector.pyx b/python/cython/PyDetector.pyx
index dd1ed0b..ad0bde4 100644
--- a/python/cython/PyDetector.pyx
+++ b/python/cython/PyDetector.pyx
@@ -47,7 +47,7 @@ cdef class PyDetector:
     def __dealloc__(self):
         del self.thisptr
 
-    def getTransmission(self, energies, PyElements elementsLib, double angle=90.):
+    def getTransmission(self, energies, PyElements elementsLib not None, double angle=90.):
         if not hasattr(energies, "__len__"):
             energies = numpy.array([energies], numpy.float64)
         return self.thisptr.getTransmission(energies, deref(elementsLib.thisptr), angle)
@@ -73,7 +73,7 @@ cdef class PyDetector:
     def setMaximumNumberOfEscapePeaks(self, int n):
         self.thisptr.setMaximumNumberOfEscapePeaks(n)
 
-    def getEscape(self, double energy, PyElements elementsLib, label="", int update=1):
+    def getEscape(self, double energy, PyElements elementsLib not None, label="", int update=1):
         label_ = toBytes(label)
         if sys.version < "3.0":
             if update:
@@ -104,7 +104,7 @@ cdef class PyDetector:
     def getDensity(self):
         return self.thisptr.getDensity()
 
-    def getComposition(self, PyElements elementsLib):
+    def getComposition(self, PyElements elementsLib not None):
         if sys.version < "3.0":
             return self.thisptr.getComposition(deref(elementsLib.thisptr))
         else:
diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index 689108b..6669dcc 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -158,7 +158,7 @@ cdef class PyElements:
     def __dealloc__(self):
         del self.thisptr
 
-    def addMaterial(self, PyMaterial material, int errorOnReplace=1):
+    def addMaterial(self, PyMaterial material not None, int errorOnReplace=1):
         self.thisptr.addMaterial(deref(material.thisptr), errorOnReplace)
 
     def setShellConstantsFile(self, mainShellName, fileName):
diff --git a/python/cython/PyLayer.pyx b/python/cython/PyLayer.pyx
index 5459820..2589304 100644
--- a/python/cython/PyLayer.pyx
+++ b/python/cython/PyLayer.pyx
@@ -49,7 +49,7 @@ cdef class PyLayer:
     def __dealloc__(self):
         del self.thisptr
 
-    def getComposition(self, PyElements elementsLib):
+    def getComposition(self, PyElements elementsLib not None):
         """
         getComposition(elementsLib)
 
@@ -58,7 +58,7 @@ cdef class PyLayer:
         """
         return toStringKeys(self.thisptr.getComposition(deref(elementsLib.thisptr)))
 
-    def getTransmission(self, energies, PyElements elementsLib, double angle=90.):
+    def getTransmission(self, energies, PyElements elementsLib not None, double angle=90.):
         """
         getTransmission(energies, ElementsLibraryInstance, angle=90.)
 
@@ -69,7 +69,7 @@ cdef class PyLayer:
             energies = numpy.array([energies], numpy.float64)
         return self.thisptr.getTransmission(energies, deref(elementsLib.thisptr), angle)
 
-    def setMaterial(self, PyMaterial material):
+    def setMaterial(self, PyMaterial material not None):
         """
         setMaterial(MaterialInstance)
 
@@ -77,7 +77,7 @@ cdef class PyLayer:
         """
         self.thisptr.setMaterial(deref(material.thisptr))
 
-    def getPeakFamilies(self, double energy, PyElements elementsLib):
+    def getPeakFamilies(self, double energy, PyElements elementsLib not None):
         """
         getPeakFamilies(energy, ElementsLibraryInstance)
 
diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index 3d391b4..bc31084 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -211,7 +211,7 @@ cdef class PyXRF:
         """
         self._fillTransmissionTable(pyTransmissionTableList, "attenuator")
 
-    def setDetector(self, PyDetector detector):
+    def setDetector(self, PyDetector detector not None):
         self.thisptr.setDetector(deref(detector.thisptr))
 
     def setGeometry(self, double alphaIn, double alphaOut, double scatteringAngle = -90.0):
@@ -220,12 +220,12 @@ cdef class PyXRF:
         else:
             self.thisptr.setGeometry(alphaIn, alphaOut, scatteringAngle)
 
-    def getLayerComposition(self, PyLayer layerInstance, PyElements elementsLibrary):
+    def getLayerComposition(self, PyLayer layerInstance not None, PyElements elementsLibrary not None):
         return toStringKeys(self.thisptr.getLayerComposition(deref(layerInstance.thisptr),
                                                 deref(elementsLibrary.thisptr)))
 
-    def getLayerMassAttenuationCoefficients(self, PyLayer layerInstance, energies, \
-                                            PyElements elementsLibrary):
+    def getLayerMassAttenuationCoefficients(self, PyLayer layerInstance not None, energies, \
+                                            PyElements elementsLibrary not None):
         if not hasattr(energies, "__len__"):
             return toStringKeys(self._getLayerMassAttenuationCoefficientsSingle( \
                                     layerInstance, \
@@ -236,9 +236,9 @@ cdef class PyXRF:
                                     energies,
                                     elementsLibrary))
 
-    def _getLayerMassAttenuationCoefficientsSingle(self, PyLayer layerInstance, \
+    def _getLayerMassAttenuationCoefficientsSingle(self, PyLayer layerInstance not None, \
                                             double energy, \
-                                            PyElements elementsLibrary):
+                                            PyElements elementsLibrary not None):
         cdef std_map[std_string, double] composition
         composition.clear()
         return self.thisptr.getLayerMassAttenuationCoefficients( \
@@ -246,9 +246,9 @@ cdef class PyXRF:
                                     energy, deref(elementsLibrary.thisptr), \
                                     composition)
 
-    def _getLayerMassAttenuationCoefficientsMultiple(self, PyLayer layerInstance, \
+    def _getLayerMassAttenuationCoefficientsMultiple(self, PyLayer layerInstance not None, \
                                             std_vector[double] energies, \
-                                            PyElements elementsLibrary):
+                                            PyElements elementsLibrary not None):
         cdef std_map[std_string, double] composition
         composition.clear()
         return self.thisptr.getLayerMassAttenuationCoefficients( \
@@ -256,8 +256,8 @@ cdef class PyXRF:
                                     energies, deref(elementsLibrary.thisptr), \
                                     composition)
 
-    def getLayerTransmission(self, PyLayer layerInstance, energies, \
-                             PyElements elementsLibrary, angle=90.):
+    def getLayerTransmission(self, PyLayer layerInstance not None, energies, \
+                             PyElements elementsLibrary not None, angle=90.):
         if not hasattr(energies, "__len__"):
             return self._getLayerTransmissionSingle( \
                                     layerInstance, \
@@ -271,8 +271,8 @@ cdef class PyXRF:
                                     elementsLibrary, \
                                     angle)
 
-    def _getLayerTransmissionSingle(self, PyLayer layerInstance, double energy, \
-                             PyElements elementsLibrary, double angle):
+    def _getLayerTransmissionSingle(self, PyLayer layerInstance not None, double energy, \
+                             PyElements elementsLibrary not None, double angle):
         cdef std_map[std_string, double] composition
         composition.clear()
         return self.thisptr.getLayerTransmission( \
@@ -282,9 +282,9 @@ cdef class PyXRF:
                                     angle, \
                                     composition)
 
-    def _getLayerTransmissionMultiple(self, PyLayer layerInstance, \
+    def _getLayerTransmissionMultiple(self, PyLayer layerInstance not None, \
                              std_vector[double] energies, \
-                             PyElements elementsLibrary, double angle):
+                             PyElements elementsLibrary not None, double angle):
         cdef std_map[std_string, double] composition
         composition.clear()
         return self.thisptr.getLayerTransmission( \
@@ -294,8 +294,8 @@ cdef class PyXRF:
                                     angle, \
                                     composition)
 
-    def getLayerPeakFamilies(self, PyLayer layerInstance, double energy, \
-                             PyElements elementsLibrary):
+    def getLayerPeakFamilies(self, PyLayer layerInstance not None, double energy, \
+                             PyElements elementsLibrary not None):
         cdef std_map[std_string, double] composition
         composition.clear()
         tmpResult = self.thisptr.getLayerPeakFamilies( \
@@ -304,9 +304,9 @@ cdef class PyXRF:
                                     composition)
         return [(toString(x.first), x.second) for x in tmpResult]
 
-    def getMultilayerFluorescence(self, elementFamilyLayer, PyElements elementsLibrary, \
+    def getMultilayerFluorescence(self, elementFamilyLayer, PyElements elementsLibrary not None, \
                             int secondary = 0, int useGeometricEfficiency = 1, int useMassFractions = 0, \
-                            double secondaryCalculationLimit = 0.0, PyBeam overwritingBeam=PyBeam()):
+                            double secondaryCalculationLimit = 0.0, PyBeam overwritingBeam not None=PyBeam()):
         """
         Input
         elementFamilyLayer - Vector of strings. Each string represents the information we are interested on.
@@ -353,11 +353,11 @@ cdef class PyXRF:
                             secondary, useGeometricEfficiency, \
                             useMassFractions, secondaryCalculationLimit, deref(overwritingBeam.thisptr))
 
-    def getFluorescence(self, elementNames, PyElements elementsLibrary, \
+    def getFluorescence(self, elementNames, PyElements elementsLibrary not None, \
                             sampleLayer = 0, lineFamily="K", int secondary = 0, \
                             int useGeometricEfficiency = 1, int useMassFractions = 0, \
                             double secondaryCalculationLimit = 0.0,
-                            PyBeam overwritingBeam=PyBeam()):
+                            PyBeam overwritingBeam not None=PyBeam()):
 
         """
         Input
-- 
2.43.0


From 63bd3699fedb2cbbc2fc1b4eadb59c069a4a262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:52 +0000
Subject: [PATCH 52/63] fix: XRF.setUserBeamFilters and setUserAttenuators
 ended the interpreter when memory ran out

---
 python/cython/PyXRF.pyx | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index bc31084..d73bf0e 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -121,31 +121,32 @@ cdef class PyXRF:
                 instantiated = False
         else:
             instantiated = True
+        # filled in place: a table on the stack would be created outside of the
+        # reach of the translation of C++ exceptions
         cdef std_vector[TransmissionTable] container
-        cdef TransmissionTable t
+        container.resize(len(pyTransmissionTableList))
+        cdef size_t i = 0
         if instantiated:
             for item in pyTransmissionTableList:
                 name = toBytes(item.getName())
                 comment = toBytes(item.getComment())
                 table = item.getTransmissionTable()
-                t = TransmissionTable()
-                t.setTransmissionTable(table, name, comment)
-                container.push_back(t)
+                container.at(i).setTransmissionTable(table, name, comment)
+                i += 1
         else:
             for item in pyTransmissionTableList:
-                t = TransmissionTable()
                 if len(item) == 4:
-                    t.setTransmissionTable(item[0],
-                                           item[1],
-                                           toBytes(item[2]),
-                                           toBytes(item[3]))
+                    container.at(i).setTransmissionTable(item[0],
+                                                         item[1],
+                                                         toBytes(item[2]),
+                                                         toBytes(item[3]))
                 elif hasattr(item[0], "keys"):
-                    t.setTransmissionTable(item[0],
-                                           toBytes(item[1]),
-                                           toBytes(item[2]))
+                    container.at(i).setTransmissionTable(item[0],
+                                                         toBytes(item[1]),
+                                                         toBytes(item[2]))
                 else:
                     raise ValueError("Not appropriate input type or length")
-                container.push_back(t)
+                i += 1
         if function == "filter":
             self.thisptr.setUserBeamFilters(container)
         else:
-- 
2.43.0


From 0e14cc0c41a3fb85f21adcf3a076257298e4d013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:03 +0000
Subject: [PATCH 53/63] fix: a missing layer in the lists given to XRF is an
 error instead of a crash

---
 python/cython/PyXRF.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index d73bf0e..20185f1 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -200,6 +200,8 @@ cdef class PyXRF:
         return self.thisptr.setAttenuators(container)
 
     cdef void _addLayerToLayerVector(self, PyLayer layer, std_vector[Layer]& container):
+        if layer is None:
+            raise TypeError("A layer was expected")
         container.push_back(deref(layer.thisptr))
 
     def setUserAttenuators(self, pyTransmissionTableList):
-- 
2.43.0


From 556ca804ec090a7d58c77744b3a9fbf1b85bef8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:49 +0000
Subject: [PATCH 54/63] fix: formula: keep a single character following a
 parenthesis with its number

---
 src/fisx_elements.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index b220443..03d2ca7 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1803,6 +1803,7 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
         {
             // the number associated  to that parenthesis is 1
             factor = 1.0;
+            i = formula.size();
         }
         else
         {
@@ -1838,7 +1839,7 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
         {
             newFormula += it->first + this->toString(it->second * factor);
         }
-        if (i < (formula.size()-1))
+        if (i < formula.size())
         {
             newFormula += formula.substr(i, formula.size() - i);
         }
-- 
2.43.0


From 08d0506d92b5b43de05b14a60c782ff9b5e2bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:49 +0000
Subject: [PATCH 55/63] fix: formula: refuse a parenthesis closed before it is
 opened instead of recursing forever

---
 src/fisx_elements.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 03d2ca7..ba45245 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1787,6 +1787,11 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
             p1 = openParenthesis[0];
         }
         p2 = closeParenthesis[0];
+        if (p2 < p1)
+        {
+            // closed before being opened
+            return composition;
+        }
         length = p2 - p1 - 1;
         if(length < 1)
         {
-- 
2.43.0


From 7db11672dbddaccc7bee41bc66cb8a811cc25c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:01 +0000
Subject: [PATCH 56/63] fix: formula: do not round the amounts nor use
 exponents when expanding parentheses

---
 src/fisx_elements.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index ba45245..8b161fd 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1842,7 +1842,13 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
         }
         for(it = tmpComposition.begin(); it != tmpComposition.end(); ++it)
         {
-            newFormula += it->first + this->toString(it->second * factor);
+            // no exponent (it would not be understood in a formula) and no loss of digits
+            std::ostringstream amount;
+            amount.exceptions(std::ios_base::badbit);
+            amount.setf(std::ios_base::fixed, std::ios_base::floatfield);
+            amount.precision(40);
+            amount << it->second * factor;
+            newFormula += it->first + amount.str();
         }
         if (i < formula.size())
         {
-- 
2.43.0


From fa156c36d0197943b8261526844abdd1c204384b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:27 +0000
Subject: [PATCH 57/63] fix: formula: refuse negative amounts and formulas
 without any mass

---
 src/fisx_elements.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 8b161fd..b742171 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -34,6 +34,7 @@
 #include <algorithm>
 #include <cstdlib>
 #include "fisx_elements.h"
+#include "fisx_math.h"
 
 namespace fisx
 {
@@ -1638,6 +1639,12 @@ std::map<std::string, double> Elements::getCompositionFromFormula(const std::str
         parsedFormula[name] *= this->elementList[matIterator->second].getAtomicMass();
         total += parsedFormula[name];
     }
+    if ((total <= 0.0) || !Math::isFiniteNumber(total))
+    {
+        // nothing to normalize
+        parsedFormula.clear();
+        return parsedFormula;
+    }
     for (it = parsedFormula.begin(); it != parsedFormula.end(); ++it)
     {
         parsedFormula[it->first] /= total;
@@ -1924,6 +1931,14 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
         {
             return composition;
         }
+        for (i = 0; i < numbers.size(); ++i)
+        {
+            if (numbers[i] < 0.0)
+            {
+                // a negative amount
+                return composition;
+            }
+        }
         for (i = 0; i < keys.size(); ++ i)
         {
             if (composition.find(keys[i]) == composition.end())
-- 
2.43.0


From 4f6c59b4be73b83f024c88f98c5fd10fd34d15e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:22 +0000
Subject: [PATCH 58/63] fix: elements whose K, L and M subshells are not all
 defined in sequence: cascade and lines read outside the list of shells

---
 src/fisx_element.cpp | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 3196ec9..537cc1b 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1164,8 +1164,8 @@ std::map<std::string, double> Element::getEmittedXRayLines(const double & energy
         shell_it = this->shellInstance.find(keys[i]);
         if(shell_it == this->shellInstance.end())
         {
-            // shell is not defined, we are done
-            return result;
+            // shell is not defined
+            continue;
         }
 
         c_it = this->bindingEnergy.find(keys[i]);
@@ -1284,8 +1284,13 @@ Element::getCascadeModifiedVacancyDistribution(const std::map<std::string, doubl
     std::map<std::string, double>::const_iterator bind_it;
 
     // get a complete initial distribution of vacancies
-    for (i = 0; i < this->shellInstance.size(); i++)
+    for (i = 0; i < 9; i++)
     {
+        if (this->shellInstance.find(keys[i]) == this->shellInstance.end())
+        {
+            // the element does not have that shell
+            continue;
+        }
         c_it = distribution.find(keys[i]);
         if (c_it != distribution.end())
         {
@@ -1299,15 +1304,23 @@ Element::getCascadeModifiedVacancyDistribution(const std::map<std::string, doubl
     }
 
     // update the distribution due to the cascade
-    for (i = 0; i < finalDistribution.size(); i++)
+    for (i = 0; i < 9; i++)
     {
+        if (finalDistribution.find(keys[i]) == finalDistribution.end())
+        {
+            continue;
+        }
         if(finalDistribution[keys[i]] > 0.0)
         {
             // we have initial vacancies in shell i
             // propagate to all the higher shells j
             shell_it = this->shellInstance.find(keys[i]);
-            for (j = i + 1; j < finalDistribution.size(); j++)
+            for (j = i + 1; j < 9; j++)
             {
+                if (finalDistribution.find(keys[j]) == finalDistribution.end())
+                {
+                    continue;
+                }
                 rate = 0.0;
                 transferRatios.clear();
                 transferRatios = shell_it->second.getDirectVacancyTransferRatios(keys[j]);
@@ -1388,8 +1401,13 @@ Element::getXRayLinesFromVacancyDistribution(const std::map<std::string, double>
     else
     {
         // get a complete initial distribution of vacancies
-        for (i = 0; i < this->shellInstance.size(); i++)
+        for (i = 0; i < 9; i++)
         {
+            if (this->shellInstance.find(keys[i]) == this->shellInstance.end())
+            {
+                // the element does not have that shell
+                continue;
+            }
             c_it = distribution.find(keys[i]);
             if (c_it != distribution.end())
             {
@@ -1406,10 +1424,14 @@ Element::getXRayLinesFromVacancyDistribution(const std::map<std::string, double>
     // we have the final vacancy distribution accounting for cascade
     // we just have to generate the dictionary of rates and energies
     // for each transition
-    for (i = 0; i < finalDistribution.size(); i++)
+    for (i = 0; i < 9; i++)
     {
         // get all the fluorescence transitions to that shell
         shell_it = this->shellInstance.find(keys[i]);
+        if (shell_it == this->shellInstance.end())
+        {
+            continue;
+        }
         fluorescenceRatios = shell_it->second.getFluorescenceRatios();
         for (c_it = fluorescenceRatios.begin(); c_it != fluorescenceRatios.end(); c_it++)
         {
-- 
2.43.0


From 1c00def7bc3d584cf2280ad000ac6d356974f256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:36 +0000
Subject: [PATCH 59/63] fix: formula: a parenthesis without number can be
 followed by something else

---
 src/fisx_elements.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index b742171..ad30983 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1828,7 +1828,12 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
                 }
                 i += 1;
             }
-            if (!this->stringToDouble(formula.substr(p2+1, i - (p2+1)), factor))
+            if (i == (p2 + 1))
+            {
+                // no number between the parenthesis and what follows
+                factor = 1.0;
+            }
+            else if (!this->stringToDouble(formula.substr(p2+1, i - (p2+1)), factor))
             {
                 return composition;
             };
-- 
2.43.0


From 237d2df0180ff964d4d26d94c43e68906475e985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:14 +0000
Subject: [PATCH 60/63] fix: exponential integral of negative arguments below
 -1 was cut after ten terms (secondary excitation between layers)

---
 src/fisx_math.cpp | 49 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 7d3724a..243aac1 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -52,16 +52,24 @@ double Math::E1(const double & x)
         //
         //
         // Euler's gamma = 0.577215664901532860;
-        // I decide to evaluate just 10 terms of the series
-        //
-        // TODO: Unroll the loop with n * factorial(n) already computed.
+        // All the terms of the series have the same sign: they are summed
+        // till they do not contribute (a fixed number of terms is not enough
+        // when x is well below -1)
         double result;
-        double factorial[11] = {1.0, 1.0, 2.0, 6.0, 24., 120.0, 720., 5040., 40320., 362880., 3628800.};
-        result = -0.577215664901532860;
-        for(int n = 10; n > 0; --n)
+        double term;
+        double sum;
+        term = 1.0;
+        sum = 0.0;
+        for(int n = 1; n < 2000; ++n)
         {
-            result -= pow(-x, n) /(n * factorial[n]);
+            term *= -x / n;
+            sum += term / n;
+            if ((n > -x) && (term < (1.0e-17 * n * sum)))
+            {
+                break;
+            }
         }
+        result = -0.577215664901532860 - sum;
         return result - std::log(-x);
     }
     if(x < 1)
@@ -159,6 +167,25 @@ double Math::AS_5_1_56(const double & x)
 double Math::deBoerD(const double & x)
 {
 
+    if (x < -50.)
+    {
+        // asymptotic expansion (AS 5.1.51), avoids the overflow of E1(x)
+        double term;
+        double sum;
+        term = 1.0 / x;
+        sum = 0.0;
+        for(int n = 1; n < 40; ++n)
+        {
+            sum += term;
+            term *= -n / x;
+        }
+        return sum;
+    }
+    if (x < 0)
+    {
+        return std::exp(x) * E1(x);
+    }
+
 #ifndef NDEBUG
     // AS 5.1.19
     // 1 / (x + 1) < exp(x) * E1(x) < (1.0 /x)
@@ -166,10 +193,6 @@ double Math::deBoerD(const double & x)
     // 0.5 * log(1 + 2.0/x) < exp(x) * E1(x) < log(1 + 1.0 /x)
     double tmpResult;
     double limit0, limit1;
-    if (x < 0)
-    {
-        return std::exp(x) * E1(x);
-    }
     if (x > 1)
     {
         tmpResult = Math::_deBoerD(x);
@@ -190,10 +213,6 @@ double Math::deBoerD(const double & x)
     }
     return tmpResult;
 #else
-    if (x < 0)
-    {
-        return std::exp(x) * E1(x);
-    }
     if (x > 1)
     {
         return Math::_deBoerD(x);
-- 
2.43.0


From 0b2f3f820c8ccec1400803de26771b6057abdda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:14 +0000
Subject: [PATCH 61/63] fix: secondary excitation in a layer: the thick target
 expression was used for layers transparent to the exciting radiation

---
 src/fisx_math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 243aac1..4f92a56 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -254,9 +254,9 @@ double Math::deBoerL0(const double & mu1, const double & mu2, const double & muj
 
     // express the thickness in g/cm2
     d = thickness * density;
-    if (((mu1 + mu2) * d) > 10.)
+    if ((((mu1 + mu2) * d) > 10.) && (((mu1 + muj) * d) > 10.))
     {
-        // thick target
+        // thick target, also for the radiation emitted by its elements
         tmpDouble = (muj/mu1) * std::log(1 + mu1/muj) / ((mu1 + mu2) * muj);
         //std::cout << "THICK TARGET = " << tmpDouble << std::endl;
         if (!Math::isFiniteNumber(tmpDouble))
-- 
2.43.0


From af7b27b89047d6d894b7ac4be179e11236ce5f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:36 +0000
Subject: [PATCH 62/63] fix: formula: refuse symbols that continue after a
 number or a parenthesis ("C2o" was taken as cobalt)

---
 src/fisx_elements.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index ad30983..77e4ab2 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1905,6 +1905,11 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
             {
                 if (islower(formula[i]))
                 {
+                    if (!parsingKey)
+                    {
+                        // a symbol does not continue after its number
+                        return composition;
+                    }
                     lastKey += formula.substr(i, 1);
                 }
                 else
-- 
2.43.0


From 6c236336b7129908dfae9f63fd1705eade4625e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:50 +0000
Subject: [PATCH 63/63] fix: secondary excitation of layers below: overflow
 when the layer above absorbs the beam completely

---
 src/fisx_math.cpp       | 26 ++++++++++++++------------
 src/fisx_math.h         |  8 ++++++--
 src/fisx_multilayer.cpp | 14 ++++++++------
 3 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 4f92a56..69f6b4d 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -332,7 +332,8 @@ double Math::deBoerL0(const double & mu1, const double & mu2, const double & muj
 }
 
 double Math::deBoerX(const double & p, const double & q, const double & d1, const double & d2, \
-                     const double & mu1j, const double & mu2j, const double & mubj_dt)
+                     const double & mu1j, const double & mu2j, const double & mubj_dt, \
+                     const double & logFactor)
 {
      if ((false))
      {
@@ -392,16 +393,17 @@ double Math::deBoerX(const double & p, const double & q, const double & d1, cons
      }
      else
      {
-        return Math::deBoerV(p, q, d1, d2, mu1j, mu2j, mubj_dt) - \
-               Math::deBoerV(p, q, d1, 0.0, mu1j, mu2j, mubj_dt) - \
-               Math::deBoerV(p, q, 0.0, d2, mu1j, mu2j, mubj_dt) + \
-               Math::deBoerV(p, q, 0.0, 0.0, mu1j, mu2j, mubj_dt);
+        return Math::deBoerV(p, q, d1, d2, mu1j, mu2j, mubj_dt, logFactor) - \
+               Math::deBoerV(p, q, d1, 0.0, mu1j, mu2j, mubj_dt, logFactor) - \
+               Math::deBoerV(p, q, 0.0, d2, mu1j, mu2j, mubj_dt, logFactor) + \
+               Math::deBoerV(p, q, 0.0, 0.0, mu1j, mu2j, mubj_dt, logFactor);
 
     }
 }
 
 double Math::deBoerV(const double & p, const double & q, const double & d1, const double & d2, \
-                     const double & mu1j, const double & mu2j, const double & mubjdt)
+                     const double & mu1j, const double & mu2j, const double & mubjdt, \
+                     const double & logFactor)
 {
     double tmpDouble1;
     double tmpDouble2;
@@ -436,7 +438,7 @@ double Math::deBoerV(const double & p, const double & q, const double & d1, cons
             std::cout << "Error 0" << std::endl;
             throw std::runtime_error("Error 0: Error on V(0,0) with no intermediate layer");
         }
-        return tmpHelp;
+        return tmpHelp * std::exp(logFactor);
     }
 
     // X(p, q, d1, d2) = V(d1, d2) - V(d1, 0) - V(0, d2) + V(0, 0)
@@ -490,7 +492,7 @@ double Math::deBoerV(const double & p, const double & q, const double & d1, cons
         std::cout << " error 4 " << std::endl;
         throw std::runtime_error("error4");
     }
-    tmpHelp = std::exp((q - mu1j) * d1 - (p + mu2j) * d2 - mubjdt) * (tmpDouble1 + tmpDouble2);
+    tmpHelp = std::exp((q - mu1j) * d1 - (p + mu2j) * d2 - mubjdt + logFactor) * (tmpDouble1 + tmpDouble2);
     if (!Math::isFiniteNumber(tmpHelp))
     {
         std::cout << "p    " << p << std::endl;
@@ -500,10 +502,10 @@ double Math::deBoerV(const double & p, const double & q, const double & d1, cons
         std::cout << "mu1j " << mu1j << std::endl;
         std::cout << "mu2j " << mu2j << std::endl;
         std::cout << "mubjdt " << mubjdt << std::endl;
-        std::cout << "(q - mu1j) * d1 - (p + mu2j) * d2 - mubjdt = " ;
-        std::cout << (q - mu1j) * d1 - (p + mu2j) * d2 - mubjdt << std::endl;
-        std::cout << "exp((q - mu1j) * d1 - (p + mu2j) * d2 - mubjdt) = " ;
-        std::cout << exp((q - mu1j) * d1 - (p + mu2j) * d2 - mubjdt) << std::endl;
+        std::cout << "(q - mu1j) * d1 - (p + mu2j) * d2 - mubjdt + logFactor = " ;
+        std::cout << (q - mu1j) * d1 - (p + mu2j) * d2 - mubjdt + logFactor << std::endl;
+        std::cout << "exp((q - mu1j) * d1 - (p + mu2j) * d2 - mubjdt + logFactor) = " ;
+        std::cout << exp((q - mu1j) * d1 - (p + mu2j) * d2 - mubjdt + logFactor) << std::endl;
         std::cout << " error 5 " << std::endl;
         throw std::runtime_error("error5");
     }
diff --git a/src/fisx_math.h b/src/fisx_math.h
index ba07d89..b5c5b3d 100644
--- a/src/fisx_math.h
+++ b/src/fisx_math.h
@@ -101,16 +101,20 @@ class Math
         mu_1_j is the mass attenuation coefficient of fluorescing layer at j excitation energy
         mu_2_j is the mass attenuation coefficient of layer j at j excitation energy
         mu_b_d_t is the sum of the products mu * density * thickness of layers between layer i and j
+        log_factor is the logarithm of a factor applied to the result. It has to be given here when the
+        result without it could be too big to be represented.
         */
         static double deBoerX(const double & p, const double & q, \
                               const double & d1, const double & d2, \
                               const double & mu_1_j, const double & mu_2_j, \
-                              const double & mu_b_j_d_t = 0.0);
+                              const double & mu_b_j_d_t = 0.0, \
+                              const double & log_factor = 0.0);
 
         static double deBoerV(const double & p, const double & q, \
                               const double & d1, const double & d2, \
                               const double & mu_1_j, const double & mu_2_j, \
-                              const double & mu_b_j_d_t);
+                              const double & mu_b_j_d_t, \
+                              const double & log_factor = 0.0);
 
         /*!
         Returns false is x is NaN
diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index 1db398e..39c61ba 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -896,13 +896,13 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                             if (iLayer > jLayer)
                             {
                                 // interlayer case b)
-                                double layerFactor;
-                                layerFactor = std::exp(-mu_2_lambda * density_2 * thickness_2/sinAlphaIn);
+                                double logLayerFactor;
+                                logLayerFactor = -mu_2_lambda * density_2 * thickness_2/sinAlphaIn;
                                 /*
                                 This test has been removed in favour of the one dealing with the relative
                                 weights of each layer. Indeed, the relative amount of secondary excitation
                                 can be huge important. Other point is if we are going to detect something.
-                                if (layerFactor < 0.001)
+                                if (std::exp(logLayerFactor) < 0.001)
                                 {
                                     // No need to calculate anything, the top layer attenuates too much the
                                     // incoming beam
@@ -995,7 +995,7 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
 
                                             bLayer++;
                                         }
-                                        tmpDouble = layerFactor * sampleLayerRates[jLayer][iLambda];
+                                        tmpDouble = sampleLayerRates[jLayer][iLambda];
                                         if ((mu_2_lambda/sinAlphaIn) == mu_2_j)
                                             tmpDouble *= Math::deBoerX(-mu_2_lambda/(0.99999*sinAlphaIn), \
                                                                   -mu_1_i/sinAlphaOut, \
@@ -1003,7 +1003,8 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                                                                   density_2 * thickness_2, \
                                                                   mu_1_j, \
                                                                   mu_2_j, \
-                                                                  mu_b_j_d_t);
+                                                                  mu_b_j_d_t, \
+                                                                  logLayerFactor);
                                         else
                                             tmpDouble *= Math::deBoerX(-mu_2_lambda/sinAlphaIn, \
                                                                   -mu_1_i/sinAlphaOut, \
@@ -1011,7 +1012,8 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                                                                   density_2 * thickness_2, \
                                                                   mu_1_j, \
                                                                   mu_2_j, \
-                                                                  mu_b_j_d_t);
+                                                                  mu_b_j_d_t, \
+                                                                  logLayerFactor);
                                         tmpDouble *= elementMassFractionFactor * (0.5/sinAlphaIn);
                                         tmpDouble *= tmpExcitationFactors[c_it->first]["rate"];
                                         tmpStringStream.str(std::string());
-- 
2.43.0

