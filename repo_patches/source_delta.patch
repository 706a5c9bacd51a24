From 81fa185a5b820f308b4bec55b499d8ce1f3e8ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 01/36] fix: WordAligMatrix::getAligVec returns 1-based source
 positions

Positions in alignment vectors are in the range [1,I], 0 meaning not
aligned (see putAligVec). getAligVec stored 0-based positions, so links
to the first source word were lost, links to other words were shifted by
one, and two links where the first one was in row 0 were not detected.
---
 src/nlp_common/WordAligMatrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlp_common/WordAligMatrix.cc b/src/nlp_common/WordAligMatrix.cc
index 85c460e..ca1ebaf 100644
--- a/src/nlp_common/WordAligMatrix.cc
+++ b/src/nlp_common/WordAligMatrix.cc
@@ -116,7 +116,7 @@ bool WordAligMatrix::getAligVec(std::vector<PositionIndex>& aligVec)
     {
       if(matrix[i][j]!=0)
       {
-        if(aligVec[j]==0) aligVec[j]=i;
+        if(aligVec[j]==0) aligVec[j]=i+1;
         else
         {
           aligVec.clear();
-- 
2.43.0


From eca3e74f30d528a5af5fcf4ba0383a5b255821bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 02/36] fix: WordAligMatrix::operator-= removes the links of
 the other matrix

The cells present in both matrices were left untouched, so the result was
never the difference of the two matrices.
---
 src/nlp_common/WordAligMatrix.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nlp_common/WordAligMatrix.cc b/src/nlp_common/WordAligMatrix.cc
index ca1ebaf..7bbcbf3 100644
--- a/src/nlp_common/WordAligMatrix.cc
+++ b/src/nlp_common/WordAligMatrix.cc
@@ -292,8 +292,11 @@ WordAligMatrix& WordAligMatrix::operator-= (const WordAligMatrix &waMatrix)
   {
     for(i=0;i<I;++i)
       for(j=0;j<J;++j)
+      {
         if(matrix[i][j]!=0 && waMatrix.matrix[i][j]==0)	 
 		  matrix[i][j]=1;
+        else matrix[i][j]=0;
+      }
   }	
   return *this;
 }
-- 
2.43.0


From 82af369f21ffe5733ac52fb1e3241b08bcc6486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:30 +0000
Subject: [PATCH 03/36] fix: logNumbPermsOfTwoElems returns log(1) for zero
 elements

---
 src/nlp_common/MathFuncs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlp_common/MathFuncs.cc b/src/nlp_common/MathFuncs.cc
index 38fc250..13b808b 100644
--- a/src/nlp_common/MathFuncs.cc
+++ b/src/nlp_common/MathFuncs.cc
@@ -53,7 +53,7 @@ namespace MathFuncs
  
     if(l<=J)
     {
-      if(l==0) return 1;
+      if(l==0) return 0;
       else
       {
         if(J-l>l)
-- 
2.43.0


From 299f61daf6be045129fe2a9a072d969c1860f1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:30 +0000
Subject: [PATCH 04/36] fix: LogCount::set_count stores the logarithm of the
 count

---
 src/nlp_common/LogCount.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nlp_common/LogCount.h b/src/nlp_common/LogCount.h
index 89cda3e..34072fb 100644
--- a/src/nlp_common/LogCount.h
+++ b/src/nlp_common/LogCount.h
@@ -64,9 +64,9 @@ class LogCount
   bool operator <= (LogCount y)const { if(this->x <= y.x) return true; else return false;}
   bool operator >= (LogCount y)const { if(this->x >= y.x) return true; else return false;}
 
-  void set_count(float y){x=y;}
-  void set_count(double y){x=y;}
-  void set_count(int y){x=y;}
+  void set_count(float y){x=log((double)y);}
+  void set_count(double y){x=log(y);}
+  void set_count(int y){x=log((double)y);}
   void set_count(Count y){x=log((double)y);}  
   void set_logcount(float y){x=y;}
   void set_logcount(double y){x=y;}
-- 
2.43.0


From 3761277b07fe3267295c8af2ca056d80ace59443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:05 +0000
Subject: [PATCH 05/36] fix: lns_sumlog of two logarithms of zero is the
 logarithm of zero, not NaN

---
 src/nlp_common/MathFuncs.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nlp_common/MathFuncs.cc b/src/nlp_common/MathFuncs.cc
index 13b808b..d9d35cf 100644
--- a/src/nlp_common/MathFuncs.cc
+++ b/src/nlp_common/MathFuncs.cc
@@ -316,6 +316,9 @@ namespace MathFuncs
   //-------------------------
   double lns_sumlog(double logx,double logy)
   {
+    if(logx==logy)
+      return logx+log(2.0);
+
     if(logx>logy)
     {
       return logx+log(1+exp(logy-logx));
@@ -347,6 +350,9 @@ namespace MathFuncs
   //-------------------------
   float lns_sumlog_float(float logx,float logy)
   {
+    if(logx==logy)
+      return logx+log(2.0);
+
     if(logx>logy)
     {
       return logx+log(1+exp(logy-logx));
-- 
2.43.0


From ace3896ad97f5ff2c49fbc409d08a57dcf6769fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 06/36] fix: getLastWord keeps the first character of a string
 of one word

---
 src/nlp_common/StrProcUtils.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nlp_common/StrProcUtils.cc b/src/nlp_common/StrProcUtils.cc
index 58adfcb..204ba3a 100644
--- a/src/nlp_common/StrProcUtils.cc
+++ b/src/nlp_common/StrProcUtils.cc
@@ -158,6 +158,8 @@ namespace StrProcUtils
         result=str[i]+result;
         --i;
       }
+      if(i==0 && str[0]!=' ')
+        result=str[0]+result;
       return result;
     }
   }
-- 
2.43.0


From ff89d03ff06ebf35d1126c649bdee402eebb773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 07/36] fix: load anji matrices without remapping stored
 positions

Loading into an object with restricted size mapped the stored positions
as if they were sentence indices, so sentences never stored returned
values of other ones.
---
 src/sw_models/anjiMatrix.cc         | 4 ++++
 src/sw_models/anjm1ip_anjiMatrix.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/sw_models/anjiMatrix.cc b/src/sw_models/anjiMatrix.cc
index de2f08f..5cea8d2 100644
--- a/src/sw_models/anjiMatrix.cc
+++ b/src/sw_models/anjiMatrix.cc
@@ -155,6 +155,10 @@ bool anjiMatrix::load(const char* prefFileName)
       // Clear data structures
   clear();
 
+      // Values are stored in the file by position in the matrix, so they
+      // have to be read without restricting its size
+  anji_maxnsize=UNRESTRICTED_ANJI_SIZE;
+
       // Load information from files
   bool retVal;
   std::string anjiFile=prefFileName;
diff --git a/src/sw_models/anjm1ip_anjiMatrix.cc b/src/sw_models/anjm1ip_anjiMatrix.cc
index 5326a2e..09b78b0 100644
--- a/src/sw_models/anjm1ip_anjiMatrix.cc
+++ b/src/sw_models/anjm1ip_anjiMatrix.cc
@@ -408,6 +408,10 @@ bool anjm1ip_anjiMatrix::load(const char* prefFileName)
       // Clear data structures
   clear();
 
+      // Values are stored in the file by position in the matrix, so they
+      // have to be read without restricting its size
+  anjm1ip_anji_maxnsize=UNRESTRICTED_ANJM1IP_ANJI_SIZE;
+
       // Load information from files
   bool retVal;
   std::string matrixFile=prefFileName;
-- 
2.43.0


From 2f2172d9725fbf8655ebc2d38e396debdbce698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:20 +0000
Subject: [PATCH 08/36] fix: keep SegLenTable::pk_tlen inside its tables

Lengths equal to MAX_SENTENCE_LENGTH were read past the end of the
count tables.
---
 src/phrase_models/SegLenTable.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phrase_models/SegLenTable.cc b/src/phrase_models/SegLenTable.cc
index 9fb6ba7..edc716e 100644
--- a/src/phrase_models/SegLenTable.cc
+++ b/src/phrase_models/SegLenTable.cc
@@ -40,7 +40,7 @@ SegLenTable::SegLenTable(void)
 //-------------------------
 Prob SegLenTable::pk_tlen(unsigned int tlen,unsigned int k)
 {
-  if(tlen>MAX_SENTENCE_LENGTH || k>MAX_SENTENCE_LENGTH)
+  if(tlen>=MAX_SENTENCE_LENGTH || k>=MAX_SENTENCE_LENGTH)
   {
     return 0;
   }
-- 
2.43.0


From 5ea5557f02e303fa75c83b3560ae5e868c249c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:18 +0000
Subject: [PATCH 09/36] fix: no probability mass for segments past the source
 end

The uniform source segment length model returned an infinite
log-probability when the last cut was at the end of the sentence.
---
 src/phrase_models/SrcSegmLenTable.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/phrase_models/SrcSegmLenTable.cc b/src/phrase_models/SrcSegmLenTable.cc
index 3118977..ab3500a 100644
--- a/src/phrase_models/SrcSegmLenTable.cc
+++ b/src/phrase_models/SrcSegmLenTable.cc
@@ -25,6 +25,7 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 //--------------- Include files --------------------------------------
 
 #include "SrcSegmLenTable.h"
+#include "MathDefs.h"
 
 //--------------- Global variables -----------------------------------
 
@@ -57,6 +58,9 @@ LgProb SrcSegmLenTable::srcSegmLenLgProbUniform(unsigned int /*x_k*/,
 {
   if(srcLen>0)
   {
+        // no position is left if the last cut is at the sentence end
+    if(x_km1>=srcLen) return SMALL_LG_NUM;
+
     return log(1.0)-log((float)srcLen-(float)x_km1);
   }
   else
-- 
2.43.0


From 80005f26257bb3d6a2fa3b29c6fe28570f43c053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:37 +0000
Subject: [PATCH 10/36] fix: prefix edit distance with an empty prefix is zero

The characters (words) of the reference after the prefix are not charged, but
when the prefix is empty all of them were.
---
 src/error_correction/EditDistForStr.cc       | 13 +++++++++++--
 src/error_correction/EditDistForVecString.cc | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/error_correction/EditDistForStr.cc b/src/error_correction/EditDistForStr.cc
index 360b64c..bdb6602 100644
--- a/src/error_correction/EditDistForStr.cc
+++ b/src/error_correction/EditDistForStr.cc
@@ -251,8 +251,17 @@ Score EditDistForStr::processMatrixCellPref(const std::string& x,
       {
         pred_i=i-1;
         pred_j=0;
-        op_id=DEL_OP;
-        return dm[i-1][0] + deletionCost(x[i-1]);
+        if(usePrefDelOp && y.empty())
+        {
+              // The whole prefix (empty) has already been introduced
+          op_id=PREF_DEL_OP;
+          return dm[i-1][0];
+        }
+        else
+        {
+          op_id=DEL_OP;
+          return dm[i-1][0] + deletionCost(x[i-1]);
+        }
       }
     }
   }
diff --git a/src/error_correction/EditDistForVecString.cc b/src/error_correction/EditDistForVecString.cc
index 36ea160..66bb643 100644
--- a/src/error_correction/EditDistForVecString.cc
+++ b/src/error_correction/EditDistForVecString.cc
@@ -471,8 +471,17 @@ Score EditDistForVecString::processMatrixCellPref(const std::vector<std::string>
       {
         pred_i=i-1;
         pred_j=0;
-        op_id=DEL_OP;
-        return dm[i-1][0] + deletionCost(x[i-1]);
+        if(usePrefDelOp && y.empty())
+        {
+              // The whole prefix (empty) has already been introduced
+          op_id=PREF_DEL_OP;
+          return dm[i-1][0];
+        }
+        else
+        {
+          op_id=DEL_OP;
+          return dm[i-1][0] + deletionCost(x[i-1]);
+        }
       }
     }
   }
-- 
2.43.0


From 729ea9e0c466fba3fac5b84a808ddf4ceb3cd707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:40 +0000
Subject: [PATCH 11/36] fix: KbMiraLlWu keeps the current weights when no
 evaluated weight vector obtains a positive quality

---
 src/stack_dec/KbMiraLlWu.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stack_dec/KbMiraLlWu.cc b/src/stack_dec/KbMiraLlWu.cc
index 1ca4bae..de662b4 100644
--- a/src/stack_dec/KbMiraLlWu.cc
+++ b/src/stack_dec/KbMiraLlWu.cc
@@ -68,7 +68,7 @@ void KbMiraLlWu::update(const std::string& reference,
 
   assert (nblist.size() == scoreCompsVec.size());
 
-  std::vector<double> max_wAvg;
+  std::vector<double> max_wAvg(currWeightsVec);
   double quality, max_quality = 0;
 
   scorer->resetBackgroundCorpus();
@@ -163,7 +163,7 @@ void KbMiraLlWu::updateClosedCorpus(const std::vector<std::string>& references,
   // std::cerr << bleu << std::endl;
   // //##########################################################################
 
-  std::vector<double> max_wAvg;
+  std::vector<double> max_wAvg(currWeightsVec);
   double quality, max_quality = 0;
 
   scorer->resetBackgroundCorpus();
-- 
2.43.0


From 0eb9c1a15389d38a7671430549c3625f0005af74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:40 +0000
Subject: [PATCH 12/36] fix: MiraBleu corpus score exceeded 1 when there were
 no n-grams of some size

---
 src/stack_dec/MiraBleu.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stack_dec/MiraBleu.cc b/src/stack_dec/MiraBleu.cc
index 9b12c9c..5486660 100644
--- a/src/stack_dec/MiraBleu.cc
+++ b/src/stack_dec/MiraBleu.cc
@@ -40,8 +40,8 @@ double MiraBleu::scoreFromStats(std::vector<unsigned int>& stats){
   for (unsigned int sz=1; sz<=4; sz++) {
     unsigned int prec = stats[sz*2];
     unsigned int total = stats[sz*2+1];
-    if (total == 0) log_aux += 1;
-    else            log_aux += (double)my_log((double)prec/total);
+    // without n-grams of this size the precision is 1 (log(1)=0)
+    if (total != 0) log_aux += (double)my_log((double)prec/total);
   }
   log_aux /= 4;
   return bp * (double)exp(log_aux);
-- 
2.43.0


From 5c16e6c33f2cc6749a094428d8a20b175bc81078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:40 +0000
Subject: [PATCH 13/36] fix: MiraGtm score was NaN when nothing matches

---
 src/stack_dec/MiraGtm.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stack_dec/MiraGtm.cc b/src/stack_dec/MiraGtm.cc
index 59f0411..de8f943 100644
--- a/src/stack_dec/MiraGtm.cc
+++ b/src/stack_dec/MiraGtm.cc
@@ -160,6 +160,9 @@ double MiraGtm::scoreFromStats(std::vector<unsigned int>& stats){
   // stats = [matchings, candidate_len, reference_len]
   double pre, rec, f1;
 
+  if (stats[0] == 0)
+    return 0;
+
   pre = double(stats[0])/stats[1];
   rec = double(stats[0])/stats[2];
 
-- 
2.43.0


From 579b8ef49f1b1b21df009ba6902acfd9aec9e94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:16 +0000
Subject: [PATCH 14/36] fix: Bitset shifts by a multiple of the word size
 shifted a word by its full width (undefined)

---
 src/nlp_common/Bitset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlp_common/Bitset.h b/src/nlp_common/Bitset.h
index 4ec7133..89f7e78 100644
--- a/src/nlp_common/Bitset.h
+++ b/src/nlp_common/Bitset.h
@@ -368,7 +368,7 @@ Bitset<N>& Bitset<N>::operator>>=(size_t pos)
    if(pos<(NUM_BITS_INT) && i+j<(NUM_WORDS(N)))
    {
      words[i]=words[i+j]>>pos;
-     if(i+j+1<(NUM_WORDS(N)))
+     if(pos>0 && i+j+1<(NUM_WORDS(N)))
      {
        aux=words[i+j+1]&w;
        aux=aux<<((8*NUM_BYTES_INT)-pos);
-- 
2.43.0


From 0477878b8bc46a7f4f04695d77a3836785f47d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:03 +0000
Subject: [PATCH 15/36] fix: Bitset::set() set bits beyond the size of the set

---
 src/nlp_common/Bitset.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nlp_common/Bitset.h b/src/nlp_common/Bitset.h
index 89f7e78..9b48e73 100644
--- a/src/nlp_common/Bitset.h
+++ b/src/nlp_common/Bitset.h
@@ -226,6 +226,11 @@ Bitset<N>& Bitset<N>::set(void)
   {
     words[i]=UINT_MAX;
   }
+      // Bits beyond the size of the set are always zero
+  if(N%(NUM_BITS_INT)!=0)
+  {
+    words[NUM_WORDS(N)-1]=UINT_MAX>>((NUM_BITS_INT)-N%(NUM_BITS_INT));
+  }
  
   return *this;
 }
-- 
2.43.0


From ccc27337fcc320c5564ee55cbdab5d11196a7a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:03 +0000
Subject: [PATCH 16/36] fix: Bitset of at most one word read and wrote a second
 word when converted from or to unsigned long

---
 src/nlp_common/Bitset.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nlp_common/Bitset.h b/src/nlp_common/Bitset.h
index 9b48e73..57a0d4f 100644
--- a/src/nlp_common/Bitset.h
+++ b/src/nlp_common/Bitset.h
@@ -161,7 +161,7 @@ Bitset<N>::Bitset(unsigned long ul)
   {
     unsigned int n=NUM_BITS_INT;
     reset();
-    for(unsigned int i=0;i<NUM_INTS_PER_LONG;++i)
+    for(unsigned int i=0;i<NUM_INTS_PER_LONG && i<NUM_WORDS(N);++i)
     {
       words[i]=(unsigned int) ul;
       ul=ul>>n;
@@ -458,7 +458,7 @@ unsigned long Bitset<N>::to_ulong(void)const
     for(unsigned int i=NUM_INTS_PER_LONG;i>0;--i)
     {
       result=result<<n;
-      result+=words[i-1];
+      if(i<=NUM_WORDS(N)) result+=words[i-1];
     }  
     return result;
   }
-- 
2.43.0


From 8650baeb5d455bb65403e05617e82403045170b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:38 +0000
Subject: [PATCH 17/36] fix: copies of Trie and BidTrie lost the key of every
 node

---
 src/nlp_common/BidTrie.h | 5 +++++
 src/nlp_common/Trie.h    | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/nlp_common/BidTrie.h b/src/nlp_common/BidTrie.h
index 23c3c5e..38bbe7d 100644
--- a/src/nlp_common/BidTrie.h
+++ b/src/nlp_common/BidTrie.h
@@ -140,9 +140,11 @@ BidTrie<KEY,DATA_TYPE>::BidTrie(void)
 template<class KEY,class DATA_TYPE>
 BidTrie<KEY,DATA_TYPE>::BidTrie(const BidTrie<KEY,DATA_TYPE>& tb)
 {
+  father=NULL;
   if(&tb!=tb.children)
   {
         // The node is initialized
+    this->key=tb.key;
     this->data=tb.data;
       
     if(tb.children!=NULL) // node has children
@@ -156,6 +158,7 @@ BidTrie<KEY,DATA_TYPE>::BidTrie(const BidTrie<KEY,DATA_TYPE>& tb)
     if(tb.next!=NULL) // next is not NULL
     {
       this->next=new BidTrie<KEY,DATA_TYPE>;
+      this->next->father=this->father;
       *this->next=*tb.next;
     }
     else this->next=NULL;
@@ -178,6 +181,7 @@ BidTrie<KEY,DATA_TYPE>::operator=(const BidTrie<KEY,DATA_TYPE>& tb)
     if(&tb!=tb.children)
     {
           // The node is initialized
+      this->key=tb.key;
       this->data=tb.data;
       
       if(tb.children!=NULL) // node has children
@@ -191,6 +195,7 @@ BidTrie<KEY,DATA_TYPE>::operator=(const BidTrie<KEY,DATA_TYPE>& tb)
       if(tb.next!=NULL) // next is not NULL
       {
         this->next=new BidTrie<KEY,DATA_TYPE>;
+        this->next->father=this->father;
         *this->next=*tb.next;
       }
       else this->next=NULL;
diff --git a/src/nlp_common/Trie.h b/src/nlp_common/Trie.h
index fa65d62..358c44e 100644
--- a/src/nlp_common/Trie.h
+++ b/src/nlp_common/Trie.h
@@ -153,6 +153,7 @@ Trie<KEY,DATA_TYPE>::Trie(const Trie<KEY,DATA_TYPE>& t)
   if(&t!=t.children)
   {
         // The node is initialized
+    this->key=t.key;
     this->data=t.data;
       
     if(t.children!=NULL) // node has children
@@ -187,6 +188,7 @@ Trie<KEY,DATA_TYPE>::operator=(const Trie<KEY,DATA_TYPE>& t)
     if(&t!=t.children)
     {
           // The node is initialized
+      this->key=t.key;
       this->data=t.data;
       
       if(t.children!=NULL) // node has children
-- 
2.43.0


From 1127c39dca28531ac97ecba50c63dc13274c2ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:49 +0000
Subject: [PATCH 18/36] fix: log-probability of an alignment under IBM model 2
 ignored the sentence length model

---
 src/sw_models/IncrIbm2AligModel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sw_models/IncrIbm2AligModel.cc b/src/sw_models/IncrIbm2AligModel.cc
index ba6d554..83077af 100644
--- a/src/sw_models/IncrIbm2AligModel.cc
+++ b/src/sw_models/IncrIbm2AligModel.cc
@@ -324,7 +324,7 @@ LgProb IncrIbm2AligModel::incrIBM2LgProb(std::vector<WordIndex> nsSent,
      
   if(verbose) std::cerr<<"Obtaining IBM Model 2 logprob...\n"; 
   
-  LgProb lgProb=0;
+  LgProb lgProb=sentLenLgProb(slen,tlen);
   for(unsigned int j=0;j<alig.size();++j)
   {
     Prob p=pts(nsSent[alig[j]],tSent[j]);
-- 
2.43.0


From 16c81f8760e83ee190acd40eaa91f36a8fe995cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:28 +0000
Subject: [PATCH 19/36] fix: target totals of n-gram count tables added up the
 entries whose first source word was the target

---
 src/incr_models/vecx_x_incr_cptable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/incr_models/vecx_x_incr_cptable.h b/src/incr_models/vecx_x_incr_cptable.h
index febd76e..6c055fe 100644
--- a/src/incr_models/vecx_x_incr_cptable.h
+++ b/src/incr_models/vecx_x_incr_cptable.h
@@ -598,7 +598,7 @@ template<class X,class SRC_INFO,class SRCTRG_INFO>
 Count vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::cTrg(const X& t)
 {
   typename SrcTrgInfo::const_iterator titer;
-  Count c_t=SMALL_LG_NUM;
+  Count c_t=0;
   
   for(titer=srcTrgInfo.begin();titer!=srcTrgInfo.end();++titer)
   {
@@ -606,7 +606,7 @@ Count vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::cTrg(const X& t)
     {
       if(titer->first.size()>1)
       {
-        if(titer->first[0]==t)
+        if(titer->first.back()==t)
         {
           c_t=(float)c_t+(float)titer->second.get_c_st();
         }
@@ -677,7 +677,7 @@ LogCount vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::lcTrg(const X& t)
     {
       if(titer->first.size()>1)
       {
-        if(titer->first[0]==t)
+        if(titer->first.back()==t)
         {
           lc_t=MathFuncs::lns_sumlog(lc_t,titer->second.get_lc_st());
         }
-- 
2.43.0


From 31bc8c418c8339c5e440e7abdbf905b69bc2cec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:28 +0000
Subject: [PATCH 20/36] fix: log-probability of a pair whose source total is
 zero was not a number in count tables

---
 src/incr_models/IncrCondProbTable.h   | 2 +-
 src/incr_models/vecx_x_incr_cptable.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/incr_models/IncrCondProbTable.h b/src/incr_models/IncrCondProbTable.h
index 0eca28e..ba38328 100644
--- a/src/incr_models/IncrCondProbTable.h
+++ b/src/incr_models/IncrCondProbTable.h
@@ -394,7 +394,7 @@ LgProb IncrCondProbTable<SRCDATA,TRGDATA,SRC_INFO,SRCTRG_INFO>::logpTrgGivenSrc(
   }
   else
   {
-    if((float)psst.first<=SMALL_LG_NUM) return SMALL_LG_NUM;
+    if((float)psst.first.get_lc_s()<=SMALL_LG_NUM) return SMALL_LG_NUM;
     else
     {
       return (float)psst.second.get_lc_st()-(float)psst.first.get_lc_s();
diff --git a/src/incr_models/vecx_x_incr_cptable.h b/src/incr_models/vecx_x_incr_cptable.h
index 6c055fe..4f41593 100644
--- a/src/incr_models/vecx_x_incr_cptable.h
+++ b/src/incr_models/vecx_x_incr_cptable.h
@@ -391,7 +391,7 @@ LgProb vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::logpTrgGivenSrc(const std::v
   }
   else
   {
-    if((float)psst.first<=SMALL_LG_NUM) return SMALL_LG_NUM;
+    if((float)psst.first.get_lc_s()<=SMALL_LG_NUM) return SMALL_LG_NUM;
     else
     {
       return (float)psst.second.get_lc_st()-(float)psst.first.get_lc_s();
-- 
2.43.0


From 89ce25f8b5b102b1e0906fba5631457fa307ef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:28 +0000
Subject: [PATCH 21/36] fix: looking up a pair of IncrCondProbTable whose
 source had no entry dereferenced end()

---
 src/incr_models/IncrCondProbTable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/incr_models/IncrCondProbTable.h b/src/incr_models/IncrCondProbTable.h
index ba38328..7e150eb 100644
--- a/src/incr_models/IncrCondProbTable.h
+++ b/src/incr_models/IncrCondProbTable.h
@@ -304,7 +304,7 @@ im_pair<SRC_INFO,SRCTRG_INFO> IncrCondProbTable<SRCDATA,TRGDATA,SRC_INFO,SRCTRG_
    {
      psst.second=trgSrcNodeIter->second;
      sdcIter=srcDataInfo.find(s);
-     psst.first=sdcIter->second;
+     if(sdcIter!=srcDataInfo.end()) psst.first=sdcIter->second;
      found=true;
      return psst;
    }
-- 
2.43.0


From f7031418411bcc114b95ec7902dc90a531e34327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:07 +0000
Subject: [PATCH 22/36] fix: top and last of a multi-stack compared with the
 score of an empty hypothesis, and last returned one of the best

---
 src/stack_dec/_smtMultiStack.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stack_dec/_smtMultiStack.h b/src/stack_dec/_smtMultiStack.h
index c23a4a9..7c79ed0 100644
--- a/src/stack_dec/_smtMultiStack.h
+++ b/src/stack_dec/_smtMultiStack.h
@@ -150,7 +150,7 @@ HYPOTHESIS _smtMultiStack<HYPOTHESIS>::top(void)
   result=pos->second.top();
   if(!breadthFirst) 
   {
-    bestScore=aux.getScore();
+    bestScore=result.getScore();
   
         // For each non-empty stack stored in the map (except the first
         // one)...
@@ -196,7 +196,7 @@ HYPOTHESIS _smtMultiStack<HYPOTHESIS>::last(void)
     pos=sortedStacksMapIter->second;
     posWorst=pos;
     result=pos->second.last();
-    worstScore=aux.getScore();
+    worstScore=result.getScore();
     
         // For each non-empty stack stored in the map (except the first
         // one)...
@@ -204,7 +204,7 @@ HYPOTHESIS _smtMultiStack<HYPOTHESIS>::last(void)
     {
       pos=sortedStacksMapIter->second;
       aux=pos->second.last(); 
-      if(aux.getScore()>worstScore)
+      if(aux.getScore()<worstScore)
       {
         result=aux;
         worstScore=aux.getScore();
-- 
2.43.0


From 3df7e116ab2552e7a91086da8e0071a94dfd02e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:07 +0000
Subject: [PATCH 23/36] fix: removeLast of a best-first multi-stack always
 removed from the first sub-stack

---
 src/stack_dec/SmtMultiStackRec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stack_dec/SmtMultiStackRec.h b/src/stack_dec/SmtMultiStackRec.h
index 054e67c..d8fb8b8 100644
--- a/src/stack_dec/SmtMultiStackRec.h
+++ b/src/stack_dec/SmtMultiStackRec.h
@@ -261,7 +261,8 @@ void SmtMultiStackRec<HYPOTHESIS_REC>::removeLast(void)
         // one)...
     for(;sortedStacksMapIter!=this->sortedStacksMap.end();++sortedStacksMapIter) 
     {
-      if(pos->second.last().getScore()>worstScore)
+      pos=sortedStacksMapIter->second;
+      if(pos->second.last().getScore()<worstScore)
       {
         worstScore=pos->second.last().getScore();
         posWorst=pos;
-- 
2.43.0


From 7e9dbbc86e2186b67bd12b5b4d84588c630f4088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:07 +0000
Subject: [PATCH 24/36] fix: pushing on a multi-stack whose maximum size was
 reduced left iterators to removed hypotheses

---
 src/stack_dec/SmtMultiStackRec.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/stack_dec/SmtMultiStackRec.h b/src/stack_dec/SmtMultiStackRec.h
index d8fb8b8..74de8ab 100644
--- a/src/stack_dec/SmtMultiStackRec.h
+++ b/src/stack_dec/SmtMultiStackRec.h
@@ -352,9 +352,18 @@ bool SmtMultiStackRec<HYPOTHESIS_REC>::pushOnSmtStackIdx(typename MultiContainer
         // remove hypothesis with lower score (recInfoMap entry is
         // also removed)
     pos->second.remove(recInfoMapIter->second);
+    recInfoMap.erase(recInfoMapIter);
     recInfoMapIter=recInfoMap.end();
   }
 
+      // Remove hypotheses exceeding the maximum size of the stack (the
+      // maximum size may have been reduced)
+  while(pos->second.size()>pos->second.getMaxStackSize())
+  {
+    eraseRecInfo(pos->second.last().getHypState());
+    pos->second.removeLast();
+  }
+
       // Keep last hypothesis of the container, and the size of the
       // container before the insertion
   HYPOTHESIS_REC lastHyp;
-- 
2.43.0


From d5430565568a71e1a4a6512a0623df12fd220503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:22 +0000
Subject: [PATCH 25/36] fix: last line of a file without final newline lost its
 last character in AwkInputStream

---
 src/nlp_common/AwkInputStream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlp_common/AwkInputStream.cc b/src/nlp_common/AwkInputStream.cc
index 70d0e2f..61ac6e4 100644
--- a/src/nlp_common/AwkInputStream.cc
+++ b/src/nlp_common/AwkInputStream.cc
@@ -56,7 +56,7 @@ bool AwkInputStream::getln(void)
     read=getline(&buff,&buftlen,filePtr);
     if(read!=-1)
     {
-      buff[read-1]='\0';
+      if(buff[read-1]=='\n') buff[read-1]='\0';
       ++FNR;   
       NF=get_NF();   
       return true;   
-- 
2.43.0


From 1357023c459c751cba97f29e09b9000454997361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:22 +0000
Subject: [PATCH 26/36] fix: after a failed read the sentence handler reported
 pairs and returned wrong sentences for them

---
 src/sw_models/LightSentenceHandler.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sw_models/LightSentenceHandler.cc b/src/sw_models/LightSentenceHandler.cc
index 525f6a1..a206248 100644
--- a/src/sw_models/LightSentenceHandler.cc
+++ b/src/sw_models/LightSentenceHandler.cc
@@ -92,6 +92,7 @@ bool LightSentenceHandler::readSentencePairs(const char *srcFileName,
        if(!awkTrg.getln())
        {
          std::cerr<<"Error: the number of source and target sentences differ!"<<std::endl;
+         clear();
          return THOT_ERROR;
        }
 
-- 
2.43.0


From aeb32aa840a5770d2d75625e9d65d04a71295acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:44 +0000
Subject: [PATCH 27/36] fix: do not extract phrase pairs without source words

---
 src/phrase_models/PhraseExtractionTable.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/phrase_models/PhraseExtractionTable.cc b/src/phrase_models/PhraseExtractionTable.cc
index 546861d..2087368 100644
--- a/src/phrase_models/PhraseExtractionTable.cc
+++ b/src/phrase_models/PhraseExtractionTable.cc
@@ -1002,7 +1002,8 @@ bool PhraseExtractionTable::validCoverageForCell(Bitset<MAX_SENTENCE_LENGTH>& c,
      if(c.test(i)==0) return false;
      else ++numAlig;
    }
-   if(numAlig>maxSrcPhraseLength) return false;
+       //At least one source position must be covered
+   if(numAlig==0 || numAlig>maxSrcPhraseLength) return false;
  }
  else
  { //Obtain leftmost source (e) position covered	  
-- 
2.43.0


From 620520817062a4a47a1ca397071b296f86109aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:40 +0000
Subject: [PATCH 28/36] fix: orderArcsTopol left arc lists, score components
 and pruning marks in the old arc order

---
 src/error_correction/WordGraph.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 2ddf88c..93cc8a7 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -718,6 +718,7 @@ void WordGraph::orderArcsTopol(void)
 {
       // Define auxiliary variables
   WordGraphArcs wordGraphArcsAux;
+  std::vector<WordGraphArcId> orderedArcIds;
 
   std::vector<bool> arcAdded;
   arcAdded.insert(arcAdded.begin(),wordGraphArcs.size(),false);
@@ -773,6 +774,7 @@ void WordGraph::orderArcsTopol(void)
           atLeastOneArcAdded=true;
               // Add arc
           wordGraphArcsAux.push_back(wgArc);
+          orderedArcIds.push_back(wgArcId);
               // Mark arc as added
           arcAdded[wgArcId]=true;
               // Close state
@@ -792,6 +794,23 @@ void WordGraph::orderArcsTopol(void)
       // Check if new arc ordering has been successfully obtained
   if(wordGraphArcsAux.size()==wordGraphArcs.size())
   {
+        // Obtain the information which is indexed by arc following the
+        // new ordering
+    std::vector<bool> arcsPrunedAux;
+    std::vector<std::vector<Score> > scrCompsVecAux;
+    WordGraphStates wordGraphStatesAux(wordGraphStates.size());
+    for(WordGraphArcId newArcId=0;newArcId<orderedArcIds.size();++newArcId)
+    {
+      WordGraphArcId wgArcId=orderedArcIds[newArcId];
+      arcsPrunedAux.push_back(arcsPruned[wgArcId]);
+      scrCompsVecAux.push_back(scrCompsVec[wgArcId]);
+      wordGraphStatesAux[wordGraphArcs[wgArcId].predStateIndex].arcsToSuccStates.push_back(newArcId);
+      wordGraphStatesAux[wordGraphArcs[wgArcId].succStateIndex].arcsToPredStates.push_back(newArcId);
+    }
+    arcsPruned=arcsPrunedAux;
+    scrCompsVec=scrCompsVecAux;
+    wordGraphStates=wordGraphStatesAux;
+
         // Replace wordGraphArcs with wordGraphArcsAux
     wordGraphArcs=wordGraphArcsAux;
   }
-- 
2.43.0


From 4ea6623b5b27d64791cfe560cc1371fbee6d79e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:55 +0000
Subject: [PATCH 29/36] fix: addArc wrote out of bounds when the predecessor
 state had not appeared before

---
 src/error_correction/WordGraph.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 93cc8a7..c7c16ca 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -94,7 +94,7 @@ void WordGraph::addArc(HypStateIndex predStateIndex,
   arcsPruned.push_back(false);
   
       // Add the new arc   
-  if(succStateIndex<wordGraphStates.size())
+  if(succStateIndex<wordGraphStates.size() && predStateIndex<wordGraphStates.size())
   {
         // Add arc to predecessor and succesor states
     wordGraphStates[predStateIndex].arcsToSuccStates.push_back(wordGraphArcId);
@@ -102,11 +102,11 @@ void WordGraph::addArc(HypStateIndex predStateIndex,
   }
   else
   {
-        // There were not any arcs to the successor state
+        // There were not any arcs to the successor or predecessor states
     WordGraphStateData wordGraphStateData;
 
         // Add the required number of empty elements to wordGraphStates
-    while(succStateIndex>=wordGraphStates.size())
+    while(succStateIndex>=wordGraphStates.size() || predStateIndex>=wordGraphStates.size())
       wordGraphStates.push_back(wordGraphStateData);
 
         // Add arc to succesor state
-- 
2.43.0


From 7bb7699392c1eb24efdd0e6126ac2f90f0d61e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:35 +0000
Subject: [PATCH 30/36] fix: word graph pruning counted the initial state score
 twice and pruned arcs of the best path

---
 src/error_correction/WordGraph.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index c7c16ca..1eef493 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -1119,7 +1119,9 @@ unsigned int WordGraph::pruneArcsToPredStates(float threshold)
       HypStateIndex predStateIndex=wordGraphArcs[wordGraphArcId].predStateIndex;
       HypStateIndex succStateIndex=wordGraphArcs[wordGraphArcId].succStateIndex;
       Score arcScore=wordGraphArcs[wordGraphArcId].arcScore;
-      Score bestScoreAssociatedToArc=prevScores[predStateIndex]+arcScore+restScores[succStateIndex];
+          // Previous and rest scores include the initial state score,
+          // which must be counted only once
+      Score bestScoreAssociatedToArc=prevScores[predStateIndex]+arcScore+restScores[succStateIndex]-initialStateScore;
       // std::cerr<<predStateIndex<<" -> "<<succStateIndex<<" , "<<prevScores[predStateIndex]<<" ";
       // std::cerr<<arcScore<<" "<<restScores[succStateIndex]<<" , "<<bestScoreAssociatedToArc<<" , "<<bestHypScore<<" "<<bestHypScore+logThreshold<<std::endl;
 
-- 
2.43.0


From 9b54ffa2a1041534152c015402fa44f7d5a9dd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:52 +0000
Subject: [PATCH 31/36] fix: paths through excluded word graph arcs were
 followed when later arcs had positive scores

---
 src/error_correction/WordGraph.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 1eef493..a12beee 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -917,9 +917,10 @@ void WordGraph::calcPrevScoresWeights(HypStateIndex hypStateIndex,
           {
             prevScores[wordGraphArc.succStateIndex]=score;
             bestPredArcForStateVec[wordGraphArc.succStateIndex]=wordGraphArc;
+                // Update accessibleStateVec vector (a state reached only
+                // by excluded arcs is not accessible)
+            accessibleStateVec[wordGraphArc.succStateIndex]=true;
           }
-              // Update accessibleStateVec vector
-          accessibleStateVec[wordGraphArc.succStateIndex]=true;
         }
         else
         {
-- 
2.43.0


From da50300709a8c8676c8664487ed192c769258ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:23 +0000
Subject: [PATCH 32/36] fix: do not read past the end of the sentence when
 locating a constrained phrase

---
 src/stack_dec/JsonTranslationMetadata.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack_dec/JsonTranslationMetadata.h b/src/stack_dec/JsonTranslationMetadata.h
index ebf0ea6..8cc6380 100644
--- a/src/stack_dec/JsonTranslationMetadata.h
+++ b/src/stack_dec/JsonTranslationMetadata.h
@@ -316,7 +316,7 @@ bool JsonTranslationMetadata<SCORE_INFO>::isPhraseInSentence(std::vector<std::st
   if(phrase.empty())
     return true;
 
-  if(startPosition + phrase.size() - 1 > srcSentVec.size())
+  if(startPosition + phrase.size() > srcSentVec.size())
     return false;  // Sentence is too short to contain phrase
   
   for(unsigned int i = 0; i < phrase.size(); i++)
-- 
2.43.0


From cc35ff2bad22cd8d8344aa91f94471dc9479f11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:23 +0000
Subject: [PATCH 33/36] fix: handle sentences without any word when reading
 translation constraints

---
 src/stack_dec/TranslationMetadata.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack_dec/TranslationMetadata.h b/src/stack_dec/TranslationMetadata.h
index 7525073..9ab766b 100644
--- a/src/stack_dec/TranslationMetadata.h
+++ b/src/stack_dec/TranslationMetadata.h
@@ -151,7 +151,7 @@ void TranslationMetadata<SCORE_INFO>::obtainTransConstraints(std::string rawSrcS
     std::vector<std::string> tokRawSrcSentVec=StrProcUtils::stringToStringVector(tokRawSrcSent);
 
         // Scan string vector
-    bool end=false;
+    bool end=tokRawSrcSentVec.empty();
     unsigned int i=0;
     std::vector<std::string> srcPhrase;
     std::vector<std::string> trgPhrase;
-- 
2.43.0


From c822d6177abab9f91b66855d2d091bbfcbd72131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:48 +0000
Subject: [PATCH 34/36] fix: restore the last blank of the prefix only at the
 last prefix word

---
 src/error_correction/NonPbEcModelForNbUcat.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error_correction/NonPbEcModelForNbUcat.cc b/src/error_correction/NonPbEcModelForNbUcat.cc
index 1ef279f..951df3d 100644
--- a/src/error_correction/NonPbEcModelForNbUcat.cc
+++ b/src/error_correction/NonPbEcModelForNbUcat.cc
@@ -233,7 +233,7 @@ std::vector<std::string> NonPbEcModelForNbUcat::correctedSent(PrefAlignInfo& pre
         // restore last blank if necessary
     if(lastPrefSegm.back()[lastPrefSegm.back().size()-1]==' ')
     {
-      if(corrSent[corrSent.size()-1]+' '==lastPrefSegm.back())
+      if(corrSent.size()==prefixVec.size() && corrSent[corrSent.size()-1]+' '==lastPrefSegm.back())
         corrSent[corrSent.size()-1]=lastPrefSegm.back();
     }
   }
-- 
2.43.0


From 354a164984ff1183b4ed5c958dc6e410749c2ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:45 +0000
Subject: [PATCH 35/36] fix: do not charge the blank that ends a complete
 prefix word

---
 src/error_correction/EditDistForVecString.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/error_correction/EditDistForVecString.cc b/src/error_correction/EditDistForVecString.cc
index 66bb643..56f8254 100644
--- a/src/error_correction/EditDistForVecString.cc
+++ b/src/error_correction/EditDistForVecString.cc
@@ -177,10 +177,16 @@ void EditDistForVecString::incrEditDistPrefixFirstRow(const std::vector<std::str
   
   for(unsigned int j=0; j<incr_y.size(); ++j)
   {
+        // A blank character in the last word only means that the word
+        // is complete
+    std::string yWord=incr_y[j];
+    if(j+1==incr_y.size() && StrProcUtils::lastCharIsBlank(yWord))
+      yWord=StrProcUtils::removeLastBlank(yWord);
+
     if(startingPos+j==0)
-      newScoreVec.push_back(insertionCost(incr_y[j]));
+      newScoreVec.push_back(insertionCost(yWord));
     else
-      newScoreVec.push_back(newScoreVec[startingPos+j-1] + insertionCost(incr_y[j]));
+      newScoreVec.push_back(newScoreVec[startingPos+j-1] + insertionCost(yWord));
   }
 }
 
-- 
2.43.0


From ee8dc5b18b8c1eb901a470a7b07c6e8708bcdafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:07 +0000
Subject: [PATCH 36/36] fix: reuse only the common beginning of the previous
 prefix

---
 src/error_correction/WgProcessorForAnlp.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/error_correction/WgProcessorForAnlp.h b/src/error_correction/WgProcessorForAnlp.h
index d26e9c5..31207b5 100644
--- a/src/error_correction/WgProcessorForAnlp.h
+++ b/src/error_correction/WgProcessorForAnlp.h
@@ -476,8 +476,10 @@ WgProcessorForAnlp<ECM_FOR_WG>::getValidProcPrefixVec(const std::vector<std::str
   for(unsigned int i=0;i<previousPrefixVec.size();++i)
   {
     if(i>=prefixVec.size()) break;
-    if(previousPrefixVec[i]==prefixVec[i])
-      result.push_back(previousPrefixVec[i]);
+    if(previousPrefixVec[i]!=prefixVec[i]) break;
+        // The last word of a prefix is processed in a different way
+    if((i+1==previousPrefixVec.size())!=(i+1==prefixVec.size())) break;
+    result.push_back(previousPrefixVec[i]);
   }
   return result;
 }
-- 
2.43.0

