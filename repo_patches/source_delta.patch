From 05382e2a6a418cbc4de14be8c96bfab6804e1185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:40 +0000
Subject: [PATCH 01/28] fix: Boost vector assign wrote one element past the end

assign(n, value) indexed the uBLAS vector (0-based) with i+1: the first
element kept its old value and the write at n went out of bounds.
---
 orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp b/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
index 51d2f11..478ddf4 100644
--- a/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
+++ b/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
@@ -67,7 +67,7 @@ void MyColumnVector::assign(int num_rows, double value)
   BoostColumnVector & op1 = (*this);
   op1.resize(num_rows);
   for (unsigned int i=0; i<num_rows; i++)
-    op1(i+1) = value;
+    op1(i) = value;
 }
 
 // Number of Rows / Cols
@@ -275,7 +275,7 @@ void MyRowVector::assign(int num_columns, double value)
   BoostRowVector & op1 = (*this);
   op1.resize(num_columns);
   for (unsigned int i=0; i<num_columns; i++)
-    op1(i+1) = value;
+    op1(i) = value;
 }
 
 // Number of Rows / Cols
-- 
2.43.0


From f4c95a3d1c2006f93559278c21127dc44778d3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:40 +0000
Subject: [PATCH 02/28] fix: Eigen rowCopy/columnCopy are 1-based like the rest
 of the wrapper

---
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index 533ca6f..f68ab2b 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -182,12 +182,12 @@ MyMatrix&
 
 MyRowVector MyMatrix::rowCopy(unsigned int r) const
 {
-  return (MyRowVector) (*this).row(r);
+  return (MyRowVector) (*this).row(r-1);
 }
 
 MyColumnVector MyMatrix::columnCopy(unsigned int c) const
 {
-  return (MyColumnVector) (*this).col(c);
+  return (MyColumnVector) (*this).col(c-1);
 }
 
 
-- 
2.43.0


From bb272847500afa8b780f861141ffe280686eafda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:40 +0000
Subject: [PATCH 03/28] fix: Eigen RowVector::vectorAdd used the number of rows
 as length

---
 orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
index 0380eef..e9bf425 100644
--- a/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
@@ -244,10 +244,10 @@ MyRowVector
 MyRowVector::vectorAdd(const MyRowVector& v2) const
 {
   const MyRowVector& v1 = *this;
-  MyRowVector res(v1.rows() + v2.rows());
+  MyRowVector res(v1.columns() + v2.columns());
   EigenRowVector& opl = res;
-  opl.head(v1.rows()) = (const EigenRowVector &)(v1);
-  opl.tail(v2.rows()) = (const EigenRowVector &)(v2);
+  opl.head(v1.columns()) = (const EigenRowVector &)(v1);
+  opl.tail(v2.columns()) = (const EigenRowVector &)(v2);
   return res;
 }
 
-- 
2.43.0


From bcc0cb879a709c90b053ff02ba7d1f5033c08a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:40 +0000
Subject: [PATCH 04/28] fix: Eigen convertToSymmetricMatrix takes the lower
 triangle, as documented

---
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index f68ab2b..8a002f8 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -224,7 +224,7 @@ MyMatrix::convertToSymmetricMatrix(MySymmetricMatrix& sym)
   assert(this->rows() == this->columns());
 
   const EigenMatrix & A = (EigenMatrix &) (*this);
-  sym = MySymmetricMatrix(A.selfadjointView<Eigen::Upper>());
+  sym = MySymmetricMatrix(EigenMatrix(A.selfadjointView<Eigen::Lower>()));
   return 0;
 }
 
-- 
2.43.0


From 24b29e2c518011dbfd4feb83ded2038b9bd78377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:40 +0000
Subject: [PATCH 05/28] fix: Eigen resize keeps the existing elements

resize(..., copy=true) and the vector resize discarded the contents, unlike
the Boost implementation and the declared copy argument.
---
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 10 ++++++++--
 orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp |  4 ++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index 8a002f8..bb50a96 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -232,7 +232,10 @@ void
 MyMatrix::resize(unsigned int i, unsigned int j, bool copy, bool initialize)
 {
   EigenMatrix & temp = (EigenMatrix &) (*this);
-  temp.resize(i,j);
+  if (copy)
+    temp.conservativeResize(i,j);
+  else
+    temp.resize(i,j);
 }
 
 // get sub matrix
@@ -505,7 +508,10 @@ void
 MySymmetricMatrix::resize(unsigned int i, bool copy, bool initialize)
 {
   EigenSymmetricMatrix & temp = (EigenSymmetricMatrix &) (*this);
-  temp.resize(i,i);
+  if (copy)
+    temp.conservativeResize(i,i);
+  else
+    temp.resize(i,i);
 }
 
 
diff --git a/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
index e9bf425..14d1c53 100644
--- a/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
@@ -31,7 +31,7 @@ MyColumnVector::ColumnVector(const EigenColumnVector & a) :
 void MyColumnVector::resize(int num_rows)
 {
   EigenColumnVector & op1 = (*this);
-  op1.resize(num_rows);
+  op1.conservativeResize(num_rows);
 }
 
 // Assign
@@ -224,7 +224,7 @@ MyRowVector::RowVector(const EigenRowVector & a) :
 void MyRowVector::resize(int num_columns)
 {
   EigenRowVector & op1 = (*this);
-  op1.resize(num_columns);
+  op1.conservativeResize(num_columns);
 }
 
 // Assign
-- 
2.43.0


From 4c47339c3a0c7590e3e493b698ce12f33ceef368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:54 +0000
Subject: [PATCH 06/28] fix: Uniform built without dimension wrote samples out
 of bounds

UniformSet on a Uniform of dimension 0 set the dimension but left the
buffer used by SampleFrom empty.
---
 orocos_bfl/src/pdf/uniform.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/pdf/uniform.cpp b/orocos_bfl/src/pdf/uniform.cpp
index 914cd7d..7fd1ce5 100644
--- a/orocos_bfl/src/pdf/uniform.cpp
+++ b/orocos_bfl/src/pdf/uniform.cpp
@@ -136,7 +136,11 @@ namespace BFL
     {
         _Height = _Height / width(i);
     }
-    if (this->DimensionGet() == 0) this->DimensionSet(center.rows());
+    if (this->DimensionGet() == 0)
+    {
+        this->DimensionSet(center.rows());
+        _samples.resize(center.rows());
+    }
     assert(this->DimensionGet() == center.rows());
   }
 
-- 
2.43.0


From f643248a6fbc35c4c53a1aaa1ab16fa52aa1a6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:11 +0000
Subject: [PATCH 07/28] fix: Boost determinant of a singular matrix is zero

determinant() of a singular matrix of size 3 or more asserted on the zero
pivot reported by lu_factorize instead of returning 0.
---
 orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
index dbd1d2e..edb2dcb 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
@@ -243,7 +243,7 @@ double MyMatrix::determinant() const
             boost::numeric::ublas::permutation_matrix<> ndx(r);
             noalias(LU) = A;
             int res = lu_factorize(LU,ndx);
-            assert(res == 0);
+            if (res != 0) return 0.0; // zero pivot: singular matrix
 
             int s = 1;
             for (boost::numeric::ublas::matrix<double>::size_type i=0;i<LU.size1();++i) {
@@ -434,7 +434,7 @@ double MySymmetricMatrix::determinant() const
         boost::numeric::ublas::permutation_matrix<> ndx(r);
         noalias(LU) = A;
         int res = lu_factorize(LU,ndx);
-        assert(res == 0);
+        if (res != 0) return 0.0; // zero pivot: singular matrix
 
         double result = 1.0;
         int s = 1;
-- 
2.43.0


From 767e3c1e0c9416d6d8efe5109d176bd269d32fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:03 +0000
Subject: [PATCH 08/28] fix: discrete sampling returned state -1 for a uniform
 draw of zero

The generator draws from [0,1). For a draw of exactly 0 the search stopped
at the leading 0 of the cumulative sum, and the state before the first one
was returned (and a state of probability zero for a draw on its boundary).
---
 orocos_bfl/src/pdf/discreteconditionalpdf.cpp |  6 +++---
 orocos_bfl/src/pdf/discretepdf.cpp            | 15 +++++++--------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
index 250710e..00fb910 100644
--- a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
+++ b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
@@ -164,10 +164,10 @@ namespace BFL
     // Sample from univariate uniform rng between 0 and 1;
     double unif_sample; unif_sample = runif();
     // Compare where we should be: THIS CAN BE MADE FASTER: TODO
-    index = 0;
-    while ( unif_sample > _valuelist[index] )
+    // (state index-1 covers the interval [_valuelist[index-1],_valuelist[index]) )
+    index = 1;
+    while ( index < NumStatesGet() && unif_sample >= _valuelist[index] )
       {
-	assert(index <= NumStatesGet());
 	index++;
       }
     one_sample.ValueSet(index-1);
diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index d47ebf3..a30b7ad 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -151,17 +151,16 @@ namespace BFL
 	        unif_samples[i] = pow(unif_samples[i], double (1.0/(i+1))) * unif_samples[i+1];
 
 	    // CHECK WHERE THESE SAMPLES ARE IN _CUMPDF
-	    unsigned int index = 0;
+	    // (state index-1 covers the interval [_CumPDF[index-1],_CumPDF[index]) )
+	    unsigned int index = 1;
 	    unsigned int num_states = NumStatesGet();
-	    vector<double>::const_iterator CumPDFit = _CumPDF.begin();
+	    vector<double>::const_iterator CumPDFit = _CumPDF.begin() + 1;
 	    vector<Sample<int> >::iterator sit = list_samples.begin();
 
 	    for ( unsigned int i = 0; i < num_samples ; i++)
 	      {
-	        while ( unif_samples[i] > *CumPDFit )
+	        while ( index < num_states && unif_samples[i] >= *CumPDFit )
 	        {
-	  	// check for internal error
-	  	assert(index <= num_states);
 	  	index++; CumPDFit++;
 	        }
           int a = index - 1;
@@ -187,10 +186,10 @@ namespace BFL
 	  // Sample from univariate uniform rng between 0 and 1;
 	  double unif_sample; unif_sample = runif();
 	  // Compare where we should be
-	  unsigned int index = 0;
-	  while ( unif_sample > _CumPDF[index] )
+	  // (state index-1 covers the interval [_CumPDF[index-1],_CumPDF[index]) )
+	  unsigned int index = 1;
+	  while ( index < NumStatesGet() && unif_sample >= _CumPDF[index] )
 	    {
-	      assert(index <= NumStatesGet());
 	      index++;
 	    }
 	  int a = index - 1;
-- 
2.43.0


From 59b3539bd7e84fe6ee7e5a2ae428a01a72246978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:03 +0000
Subject: [PATCH 09/28] fix: DiscretePdf::ProbabilitySet divided by zero for a
 single state

---
 orocos_bfl/src/pdf/discretepdf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index a30b7ad..65998f0 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -102,7 +102,8 @@ namespace BFL
     else{
         for (int i=0; i<NumStatesGet();i++)
         {
-            (*_Values_p)[i] = (Probability)( (1-a)/(NumStatesGet()-1));
+            if (i != state)
+                (*_Values_p)[i] = (Probability)( (1-a)/(NumStatesGet()-1));
         }
     }
     (*_Values_p)[state] = a;
-- 
2.43.0


From 95540fd4533ecde360d5c85a18a0d5509429048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:03 +0000
Subject: [PATCH 10/28] fix: assigning a DiscretePdf shared and then freed its
 values twice

---
 orocos_bfl/src/pdf/discretepdf.cpp | 12 ++++++++++++
 orocos_bfl/src/pdf/discretepdf.h   |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index 65998f0..552c64e 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -56,6 +56,18 @@ namespace BFL
 #endif // __CONSTRUCTOR__
   }
 
+  DiscretePdf& DiscretePdf::operator=(const DiscretePdf & my_dpdf)
+  {
+    if (this != &my_dpdf)
+    {
+      Pdf<int>::operator=(my_dpdf);
+      _num_states = my_dpdf._num_states;
+      *_Values_p = *my_dpdf._Values_p;
+      _CumPDF = my_dpdf._CumPDF;
+    }
+    return *this;
+  }
+
   DiscretePdf::~DiscretePdf()
   {
 #ifdef __CONSTRUCTOR__
diff --git a/orocos_bfl/src/pdf/discretepdf.h b/orocos_bfl/src/pdf/discretepdf.h
index 92d55c9..2c17c02 100644
--- a/orocos_bfl/src/pdf/discretepdf.h
+++ b/orocos_bfl/src/pdf/discretepdf.h
@@ -58,6 +58,9 @@ namespace BFL
       /// Copy Constructor
       DiscretePdf(const DiscretePdf &);
 
+      /// Assignment operator
+      DiscretePdf& operator=(const DiscretePdf &);
+
       /// Destructor
       virtual ~DiscretePdf();
 
-- 
2.43.0


From 1851c7898e5c61615bfffb535d7138219f23e096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:14 +0000
Subject: [PATCH 11/28] fix: assigning a DiscreteConditionalPdf shared the
 table of its source

---
 orocos_bfl/src/pdf/discreteconditionalpdf.cpp | 23 +++++++++++++++++++
 orocos_bfl/src/pdf/discreteconditionalpdf.h   |  2 ++
 2 files changed, 25 insertions(+)

diff --git a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
index 00fb910..5df8585 100644
--- a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
+++ b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
@@ -80,6 +80,29 @@ namespace BFL
       }
   }
 
+  DiscreteConditionalPdf& DiscreteConditionalPdf::operator=(const DiscreteConditionalPdf & pdf)
+  {
+    if (this != &pdf)
+      {
+	ConditionalPdf<int,int>::operator=(pdf);
+	int * dims = new int[pdf.NumConditionalArgumentsGet()];
+	for ( unsigned int arg = 0 ; arg < pdf.NumConditionalArgumentsGet(); arg++)
+	  dims[arg] = pdf._cond_arg_dims_p[arg];
+	double * probs = new double[pdf._total_dimension];
+	for (int prob = 0 ; prob < pdf._total_dimension ; prob++)
+	  probs[prob] = pdf._probability_p[prob];
+	delete [] _cond_arg_dims_p;
+	delete [] _probability_p;
+	_cond_arg_dims_p = dims;
+	_probability_p = probs;
+	_num_states = pdf._num_states;
+	_total_dimension = pdf._total_dimension;
+	_probs = pdf._probs;
+	_valuelist = pdf._valuelist;
+      }
+    return *this;
+  }
+
   //Clone function
   DiscreteConditionalPdf* DiscreteConditionalPdf::Clone() const
   {
diff --git a/orocos_bfl/src/pdf/discreteconditionalpdf.h b/orocos_bfl/src/pdf/discreteconditionalpdf.h
index 3f743d0..7187da6 100644
--- a/orocos_bfl/src/pdf/discreteconditionalpdf.h
+++ b/orocos_bfl/src/pdf/discreteconditionalpdf.h
@@ -92,6 +92,8 @@ namespace BFL
 			     int cond_arg_dimensions[] = NULL);
       /// Copy constructor
       DiscreteConditionalPdf(const DiscreteConditionalPdf & pdf);
+      /// Assignment operator
+      DiscreteConditionalPdf& operator=(const DiscreteConditionalPdf & pdf);
       /// Destructor
       virtual ~DiscreteConditionalPdf();
 
-- 
2.43.0


From acacd5efce9f906b7c456735f4426bc47010dbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:19 +0000
Subject: [PATCH 12/28] fix: sampling a sample-based density read before the
 first sample for a draw of zero

The generator draws from [0,1). For a draw of exactly 0 the search stopped at
the leading 0 of the cumulative weights and stepped back past the first sample.
---
 orocos_bfl/src/pdf/mcpdf.h | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/orocos_bfl/src/pdf/mcpdf.h b/orocos_bfl/src/pdf/mcpdf.h
index e2390ff..93fee9b 100644
--- a/orocos_bfl/src/pdf/mcpdf.h
+++ b/orocos_bfl/src/pdf/mcpdf.h
@@ -262,23 +262,21 @@ namespace BFL
 		unif_samples[i] = pow(unif_samples[i],double (1.0/(i+1))) * unif_samples[i+1];
 
 	    // CHECK WHERE THESE SAMPLES ARE IN _CUMPDF
-	    unsigned int index = 0;
+	    // (sample index-1 covers the interval [_CumPDF[index-1],_CumPDF[index]) )
+	    unsigned int index = 1;
 	    unsigned int size;
 	    size = _listOfSamples.size();
 	    typename vector<WeightedSample<T> >::const_iterator it = _listOfSamples.begin();
-	    typename vector<double>::const_iterator CumPDFit = _CumPDF.begin();
+	    typename vector<double>::const_iterator CumPDFit = _CumPDF.begin() + 1;
 	    typename vector<Sample<T> >::iterator sit = list_samples.begin();
 
 	    for ( unsigned int i = 0; i < numsamples ; i++)
 	      {
-		while ( unif_samples[i] > *CumPDFit )
+		while ( index < size && unif_samples[i] >= *CumPDFit )
 		  {
-		    assert(index <= size);
 		    index++; it++; CumPDFit++;
 		  }
-		it--;
 		*sit = *it;
-		it++;
 		sit++;
 	      }
 	    return true;
@@ -301,20 +299,18 @@ namespace BFL
 	    // Sample from univariate uniform rng between 0 and 1;
 	    double unif_sample; unif_sample = runif();
 	    // Compare where we should be:
-	    unsigned int index = 0;
+	    // (sample index-1 covers the interval [_CumPDF[index-1],_CumPDF[index]) )
+	    unsigned int index = 1;
 	    unsigned int size; size = _listOfSamples.size();
 	    typename vector<WeightedSample<T> >::const_iterator it;
 	    it = _listOfSamples.begin();
 	    typename vector<double>::const_iterator CumPDFit;
-	    CumPDFit = _CumPDF.begin();
+	    CumPDFit = _CumPDF.begin() + 1;
 
-	    while ( unif_sample > *CumPDFit )
+	    while ( index < size && unif_sample >= *CumPDFit )
 	      {
-		// check for internal error
-		assert(index <= size);
 		index++; it++; CumPDFit++;
 	      }
-	    it--;
 	    one_sample = *it;
 	    return true;
 	  }
-- 
2.43.0


From f2db623af5a8063f62b7af206645e0562b5f877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:19 +0000
Subject: [PATCH 13/28] fix: sampling a mixture used component -1 for a uniform
 draw of zero

---
 orocos_bfl/src/pdf/mixture.h | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index d43118f..24c5bee 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -310,17 +310,16 @@ template<typename T>
 	        unif_samples[i] = pow(unif_samples[i], double (1.0/(i+1))) * unif_samples[i+1];
 
 	    // CHECK WHERE THESE SAMPLES ARE IN _CUMWEIGHTS
-	    unsigned int index = 0;
+	    // (component index-1 covers the interval [_cumWeights[index-1],_cumWeights[index]) )
+	    unsigned int index = 1;
 	    unsigned int num_states = NumComponentsGet();
-	    vector<double>::const_iterator CumPDFit = _cumWeights.begin();
+	    vector<double>::const_iterator CumPDFit = _cumWeights.begin() + 1;
 	    typename vector<Sample<T> >::iterator sit = list_samples.begin();
 
 	    for ( unsigned int i = 0; i < num_samples ; i++)
 	      {
-	        while ( unif_samples[i] > *CumPDFit )
+	        while ( index < num_states && unif_samples[i] >= *CumPDFit )
 	        {
-	  	// check for internal error
-	  	assert(index <= num_states);
 	  	index++; CumPDFit++;
 	        }
           // index-1 is a sample of the discrete pdf of the mixture weights
@@ -346,10 +345,10 @@ template<typename T>
 	  // Sample from univariate uniform rng between 0 and 1;
 	  double unif_sample; unif_sample = runif();
 	  // Compare where we should be
-	  unsigned int index = 0;
-	  while ( unif_sample > _cumWeights[index] )
+	  // (component index-1 covers the interval [_cumWeights[index-1],_cumWeights[index]) )
+	  unsigned int index = 1;
+	  while ( index < NumComponentsGet() && unif_sample >= _cumWeights[index] )
 	    {
-	      assert(index <= NumComponentsGet());
 	      index++;
 	    }
          // index-1 is a sample of the discrete pdf of the mixture weights
-- 
2.43.0


From bec6b864696c8a44450a9bf53e3ca9f4fca6e2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:07 +0000
Subject: [PATCH 14/28] fix: Mixture::ComponentsGet did not compile when used

---
 orocos_bfl/src/pdf/mixture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index 24c5bee..1e2bfc6 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -532,7 +532,7 @@ template<typename T>
   vector<Pdf<T>*> Mixture<T>::ComponentsGet() const
   {
     TestNotInit();
-    return _componentPdfs;
+    return *_componentPdfs;
   }
 
 template<typename T>
-- 
2.43.0


From 086c78dc81f1bc7518bef6b2027302d07303cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:40 +0000
Subject: [PATCH 15/28] fix: ordered (RIPLEY) sampling of a mixture never
 sampled its components

The ordered method only exists for lists of samples; passed on to the
components, which draw one sample each, it failed and left the samples unset.
---
 orocos_bfl/src/pdf/mixture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index 1e2bfc6..76ce5cc 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -324,7 +324,7 @@ template<typename T>
 	        }
           // index-1 is a sample of the discrete pdf of the mixture weights
           // get a sample from the index-1'th mixture component
-	      (*_componentPdfs)[index-1]->SampleFrom(*sit,method,args);
+	      (*_componentPdfs)[index-1]->SampleFrom(*sit,SampleMthd::DEFAULT,args);
 	      sit++;
 	      }
 	    return true;
-- 
2.43.0


From 73dfd2758612231e22c90f92584c22791cf84045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:40 +0000
Subject: [PATCH 16/28] fix: copying a mixture without components aborted

---
 orocos_bfl/src/pdf/mixture.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index 76ce5cc..b04bfb1 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -228,9 +228,8 @@ Mixture<T>::Mixture(const Mixture & my_mixture):Pdf<T>(my_mixture.DimensionGet()
   {
     //create pointer to vector of component weights
     _componentWeights = new vector<Probability>(this->NumComponentsGet());
-    (*_componentWeights) = my_mixture.WeightsGet();
-    _cumWeights.insert(_cumWeights.begin(),NumComponentsGet()+1,0.0);
-    CumWeightsUpdate();
+    (*_componentWeights) = *my_mixture._componentWeights;
+    _cumWeights = my_mixture._cumWeights;
 
     //create pointer to vector of pointers to weights
     _componentPdfs = new vector< Pdf<T>* >(NumComponentsGet());
-- 
2.43.0


From fab831bfad3a8c3f5c670819c1af1fead6ce4e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:40 +0000
Subject: [PATCH 17/28] fix: assigning a mixture shared and then freed its
 components twice

---
 orocos_bfl/src/pdf/mixture.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index b04bfb1..3b2a41e 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -87,6 +87,9 @@ namespace BFL
 
       Mixture(const Mixture & my_mixture);
 
+      /// Assignment operator
+      Mixture & operator=(const Mixture & my_mixture);
+
       /// Destructor
       virtual ~Mixture();
 
@@ -242,6 +245,24 @@ Mixture<T>::Mixture(const Mixture & my_mixture):Pdf<T>(my_mixture.DimensionGet()
 #endif // __CONSTRUCTOR__
   }
 
+template<typename T>
+  Mixture<T> & Mixture<T>::operator=(const Mixture & my_mixture)
+  {
+    if (this != &my_mixture)
+    {
+        Pdf<T>::operator=(my_mixture);
+        for (unsigned int i=0; i<NumComponentsGet();i++)
+            delete (*_componentPdfs)[i];
+        _numComponents = my_mixture.NumComponentsGet();
+        *_componentWeights = *my_mixture._componentWeights;
+        _cumWeights = my_mixture._cumWeights;
+        _componentPdfs->resize(NumComponentsGet());
+        for (unsigned int i=0; i<NumComponentsGet();i++)
+            (*_componentPdfs)[i] = (*my_mixture._componentPdfs)[i]->Clone();
+    }
+    return *this;
+  }
+
 template<typename T>
   Mixture<T>::~Mixture()
   {
-- 
2.43.0


From 7f007c3bafc119958073398805cd55b190edaae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 18/28] fix: particle weights ignored the proposal when the
 sensor has parameters

---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 10 +++-------
 orocos_bfl/src/filter/particlefilter.cpp        | 10 +++-------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index 54e675a..d43fd18 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -308,8 +308,9 @@ MixtureParticleFilter<SV,MV>::UpdateWeightsInternalOne(int component,SystemModel
 	{
       _proposal->ConditionalArgumentSet(0,x_old);
 	  if (measmodel->SystemWithoutSensorParams() == true)
-	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new);
+	    weightfactor = measmodel->ProbabilityGet(z,x_new);
+	  else // System with sensor Parameters
+	    weightfactor = measmodel->ProbabilityGet(z,x_new,s);
 	      if (sysmodel->SystemWithoutInputs() == false)
 		{
 		  _proposal->ConditionalArgumentSet(1,u);
@@ -334,11 +335,6 @@ MixtureParticleFilter<SV,MV>::UpdateWeightsInternalOne(int component,SystemModel
 		    weightfactor = weightfactor * ( sysmodel->ProbabilityGet(x_new,_os_it->ValueGet()) / _proposal->ProbabilityGet(x_new) );
 		  else weightfactor = 0;
 		}
-	    }
-	  else // System with sensor Parameters
-	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new,s);
-	    }
 	}
       double new_weight = _ns_it->WeightGet() * weightfactor;
       _ns_it->WeightSet(new_weight);
diff --git a/orocos_bfl/src/filter/particlefilter.cpp b/orocos_bfl/src/filter/particlefilter.cpp
index 335b0bc..12dc580 100644
--- a/orocos_bfl/src/filter/particlefilter.cpp
+++ b/orocos_bfl/src/filter/particlefilter.cpp
@@ -227,8 +227,9 @@ ParticleFilter<SV,MV>::UpdateWeightsInternal(SystemModel<SV> * const sysmodel,
 	{
       _proposal->ConditionalArgumentSet(0,x_old);
 	  if (measmodel->SystemWithoutSensorParams() == true)
-	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new);
+	    weightfactor = measmodel->ProbabilityGet(z,x_new);
+	  else // System with sensor Parameters
+	    weightfactor = measmodel->ProbabilityGet(z,x_new,s);
 	      if (sysmodel->SystemWithoutInputs() == false)
 		{
 		  _proposal->ConditionalArgumentSet(1,u);
@@ -253,11 +254,6 @@ ParticleFilter<SV,MV>::UpdateWeightsInternal(SystemModel<SV> * const sysmodel,
 		    weightfactor = weightfactor * ( sysmodel->ProbabilityGet(x_new,_os_it->ValueGet()) / _proposal->ProbabilityGet(x_new) );
 		  else weightfactor = 0;
 		}
-	    }
-	  else // System with sensor Parameters
-	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new,s);
-	    }
 	}
       _ns_it->WeightSet(_ns_it->WeightGet() * weightfactor);
 
-- 
2.43.0


From bb8cf5078a727ef2201454b23c46a6a81c851afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:22 +0000
Subject: [PATCH 19/28] fix: Reset took over the caller's prior and left the
 filter's samples stale

Filter::Reset made the posterior an alias of the given prior: updates
overwrote it, the destructor deleted it and the old posterior leaked, and
particle filters went on with sample lists of the old size. Each filter
and smoother now restarts from a copy.
---
 orocos_bfl/src/filter/EKparticlefilter.cpp      | 10 ++++++++++
 orocos_bfl/src/filter/EKparticlefilter.h        |  3 +++
 orocos_bfl/src/filter/histogramfilter.cpp       | 12 ++++++++++++
 orocos_bfl/src/filter/histogramfilter.h         |  3 +++
 orocos_bfl/src/filter/kalmanfilter.cpp          |  9 +++++++++
 orocos_bfl/src/filter/kalmanfilter.h            |  3 +++
 orocos_bfl/src/filter/mixtureParticleFilter.cpp |  7 +++++++
 orocos_bfl/src/filter/particlefilter.cpp        | 10 ++++++++++
 orocos_bfl/src/filter/particlefilter.h          |  3 +++
 orocos_bfl/src/pdf/filterproposaldensity.cpp    | 10 ++++++++--
 orocos_bfl/src/smoother/particlesmoother.cpp    |  9 +++++++++
 orocos_bfl/src/smoother/particlesmoother.h      |  3 +++
 orocos_bfl/src/smoother/rauchtungstriebel.cpp   |  9 +++++++++
 orocos_bfl/src/smoother/rauchtungstriebel.h     |  3 +++
 14 files changed, 92 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index 2b017ec..30c9a5b 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -51,6 +51,16 @@ namespace BFL
     delete _proposal;
   }
 
+  void
+  EKParticleFilter::Reset(Pdf<CV> * prior)
+  {
+    ParticleFilter<CV,CV>::Reset(prior);
+    _sampleCov.assign(_old_samples.size(),prior->CovarianceGet());
+    _tmpCov = _sampleCov;
+    _result_samples = _old_samples;
+    _unif_samples.assign(_old_samples.size(),0.0);
+  }
+
   // KG: 20040702:  This method will be exactly the same for.  Extra
   // class between?
   bool
diff --git a/orocos_bfl/src/filter/EKparticlefilter.h b/orocos_bfl/src/filter/EKparticlefilter.h
index bf8b364..d5b02a2 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.h
+++ b/orocos_bfl/src/filter/EKparticlefilter.h
@@ -91,6 +91,9 @@ namespace BFL
 
       /// Destructor
       virtual ~EKParticleFilter();
+
+      /// Reset Filter: every sample gets the covariance of the given prior again
+      virtual void Reset(Pdf<ColumnVector> * prior);
     };
 
 } // End namespace BFL
diff --git a/orocos_bfl/src/filter/histogramfilter.cpp b/orocos_bfl/src/filter/histogramfilter.cpp
index c3f47ce..02b78c8 100644
--- a/orocos_bfl/src/filter/histogramfilter.cpp
+++ b/orocos_bfl/src/filter/histogramfilter.cpp
@@ -37,6 +37,18 @@
     delete this->_post;
   }
 
+  template <typename MeasVar>
+  void
+  HistogramFilter<MeasVar>::Reset(Pdf<int>* prior)
+  {
+    Pdf<int>* post = prior->Clone();
+    delete this->_post;
+    this->_post = post;
+    this->_prior = prior;
+    _old_prob = ( (DiscretePdf*)this->_post )->ProbabilitiesGet();
+    _new_prob = _old_prob;
+  }
+
   template <typename MeasVar>
   void
   HistogramFilter<MeasVar>::SysUpdate(SystemModel<int>* const sysmodel, const int& u)
diff --git a/orocos_bfl/src/filter/histogramfilter.h b/orocos_bfl/src/filter/histogramfilter.h
index 5992b08..e6a212b 100644
--- a/orocos_bfl/src/filter/histogramfilter.h
+++ b/orocos_bfl/src/filter/histogramfilter.h
@@ -58,6 +58,9 @@ public:
   /// Destructor
   virtual ~HistogramFilter();
 
+  /// Reset Filter: continue from a copy of the given prior
+  virtual void Reset(Pdf<int>* prior);
+
   // implement virtual function
   virtual DiscretePdf* PostGet();
 
diff --git a/orocos_bfl/src/filter/kalmanfilter.cpp b/orocos_bfl/src/filter/kalmanfilter.cpp
index 04b11ed..fc275e1 100644
--- a/orocos_bfl/src/filter/kalmanfilter.cpp
+++ b/orocos_bfl/src/filter/kalmanfilter.cpp
@@ -41,6 +41,15 @@ namespace BFL
     delete _post;
   }
 
+  void
+  KalmanFilter::Reset(Pdf<ColumnVector>* prior)
+  {
+    Pdf<ColumnVector>* post = prior->Clone();
+    delete _post;
+    _post = post;
+    _prior = prior;
+  }
+
   void
   KalmanFilter::AllocateMeasModel(const vector<unsigned int>& meas_dimensions)
   {
diff --git a/orocos_bfl/src/filter/kalmanfilter.h b/orocos_bfl/src/filter/kalmanfilter.h
index 8c62f2e..f253e93 100644
--- a/orocos_bfl/src/filter/kalmanfilter.h
+++ b/orocos_bfl/src/filter/kalmanfilter.h
@@ -58,6 +58,9 @@ public:
   /// Destructor
   virtual ~KalmanFilter();
 
+  /// Reset Filter: continue from a copy of the given prior
+  virtual void Reset(Pdf<MatrixWrapper::ColumnVector>* prior);
+
   // implement virtual function
   virtual Gaussian* PostGet();
 
diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index d43fd18..d9bd856 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -158,6 +158,13 @@ MixtureParticleFilter<SV,MV>::Reset(Mixture<SV> * prior)
     this->_post = prior->Clone();
     this->_newMixtureWeights.resize(dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet());
     this->_sumWeights.resize(dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet());
+    _old_samplesVec.resize(prior->NumComponentsGet());
+    _new_samples_unweightedVec.resize(prior->NumComponentsGet());
+    for(int i = 0 ; i < prior->NumComponentsGet() ; i++)
+    {
+      _old_samplesVec[i] = (dynamic_cast<MCPdf<SV> *>(prior->ComponentGet(i))->ListOfSamplesGet());
+    }
+    _new_samplesVec = _old_samplesVec;
 }
 
 template <typename SV, typename MV> void
diff --git a/orocos_bfl/src/filter/particlefilter.cpp b/orocos_bfl/src/filter/particlefilter.cpp
index 12dc580..c63b900 100644
--- a/orocos_bfl/src/filter/particlefilter.cpp
+++ b/orocos_bfl/src/filter/particlefilter.cpp
@@ -382,6 +382,16 @@ ParticleFilter<SV,MV>::Resample()
 }
 
 
+template<typename SV, typename MV> void
+ParticleFilter<SV,MV>::Reset(Pdf<SV> * prior)
+{
+  this->_prior = prior;
+  _old_samples = (dynamic_cast<MCPdf<SV> *>(prior))->ListOfSamplesGet();
+  _new_samples = _old_samples;
+  (dynamic_cast<MCPdf<SV> *>(this->_post))->ListOfSamplesSet(_old_samples);
+}
+
+
 template<typename SV, typename MV> MCPdf<SV> *
 ParticleFilter<SV,MV>::PostGet()
 {
diff --git a/orocos_bfl/src/filter/particlefilter.h b/orocos_bfl/src/filter/particlefilter.h
index 5ee0ce0..11e4640 100644
--- a/orocos_bfl/src/filter/particlefilter.h
+++ b/orocos_bfl/src/filter/particlefilter.h
@@ -310,6 +310,9 @@ namespace BFL
 
       // implement virtual function
       virtual MCPdf<StateVar> * PostGet();
+
+      /// Reset Filter: continue from a copy of the samples of the given prior
+      virtual void Reset(Pdf<StateVar> * prior);
     };
 
 #include "particlefilter.cpp"
diff --git a/orocos_bfl/src/pdf/filterproposaldensity.cpp b/orocos_bfl/src/pdf/filterproposaldensity.cpp
index 32bad3f..19084bf 100644
--- a/orocos_bfl/src/pdf/filterproposaldensity.cpp
+++ b/orocos_bfl/src/pdf/filterproposaldensity.cpp
@@ -55,10 +55,16 @@ namespace BFL
     */
   }
 
-  FilterPropDens::~FilterPropDens(){}
+  FilterPropDens::~FilterPropDens()
+  {
+    delete _TmpPrior;
+  }
 
   // BUG Copy constructor not implemented yet
-  FilterPropDens::FilterPropDens(const FilterPropDens & fpd){}
+  FilterPropDens::FilterPropDens(const FilterPropDens & fpd)
+    : _TmpPrior(NULL),
+      _filter(NULL)
+  {}
 
   void
   FilterPropDens::SystemModelSet(AnalyticSystemModelGaussianUncertainty * SysModel)
diff --git a/orocos_bfl/src/smoother/particlesmoother.cpp b/orocos_bfl/src/smoother/particlesmoother.cpp
index 43d9b43..bb15306 100644
--- a/orocos_bfl/src/smoother/particlesmoother.cpp
+++ b/orocos_bfl/src/smoother/particlesmoother.cpp
@@ -41,6 +41,15 @@ ParticleSmoother<SV>::~ParticleSmoother()
     delete this->_post;
 }
 
+template <typename SV> void
+ParticleSmoother<SV>::Reset(Pdf<SV>* prior)
+{
+  Pdf<SV>* post = prior->Clone();
+  delete this->_post;
+  this->_post = post;
+  this->_prior = prior;
+}
+
 template <typename SV> bool
 ParticleSmoother<SV>::UpdateInternal(SystemModel<StateVar>* const sysmodel, const StateVar& u,Pdf<StateVar>* const  filtered_post)
 {
diff --git a/orocos_bfl/src/smoother/particlesmoother.h b/orocos_bfl/src/smoother/particlesmoother.h
index 8ca3023..2604093 100644
--- a/orocos_bfl/src/smoother/particlesmoother.h
+++ b/orocos_bfl/src/smoother/particlesmoother.h
@@ -76,6 +76,9 @@ namespace BFL
       /// Destructor
       virtual ~ParticleSmoother();
 
+      /// Reset: continue from a copy of the given prior
+      virtual void Reset(Pdf<StateVar>* prior);
+
     };
 #include "particlesmoother.cpp"
 
diff --git a/orocos_bfl/src/smoother/rauchtungstriebel.cpp b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
index 2142169..1cd51fd 100644
--- a/orocos_bfl/src/smoother/rauchtungstriebel.cpp
+++ b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
@@ -47,6 +47,15 @@ namespace BFL
     delete _post;
   }
 
+  void
+  RauchTungStriebel::Reset(Pdf<ColumnVector>* prior)
+  {
+    Pdf<ColumnVector>* post = prior->Clone();
+    delete _post;
+    _post = post;
+    _prior = prior;
+  }
+
   void
   RauchTungStriebel::SysUpdate(SystemModel<ColumnVector>* const sysmodel, const ColumnVector& u,  Pdf<ColumnVector>* const filtered_post)
   {
diff --git a/orocos_bfl/src/smoother/rauchtungstriebel.h b/orocos_bfl/src/smoother/rauchtungstriebel.h
index 52de535..0732a84 100644
--- a/orocos_bfl/src/smoother/rauchtungstriebel.h
+++ b/orocos_bfl/src/smoother/rauchtungstriebel.h
@@ -51,6 +51,9 @@ public:
   /// Destructor
   virtual ~RauchTungStriebel();
 
+  /// Reset: continue from a copy of the given prior
+  virtual void Reset(Pdf<MatrixWrapper::ColumnVector>* prior);
+
 protected:
 
   /// Set covariance of posterior estimate
-- 
2.43.0


From 44df50a20724c1e97c87a836cf4b3887682c32eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:41 +0000
Subject: [PATCH 20/28] fix: particle smoother mixed up smoothed and filtered
 particles in its weights

---
 orocos_bfl/src/smoother/particlesmoother.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/orocos_bfl/src/smoother/particlesmoother.cpp b/orocos_bfl/src/smoother/particlesmoother.cpp
index bb15306..1005383 100644
--- a/orocos_bfl/src/smoother/particlesmoother.cpp
+++ b/orocos_bfl/src/smoother/particlesmoother.cpp
@@ -88,10 +88,10 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
                 prob(i,j) = sysmodel->ProbabilityGet(x_smo,x_fil);
               }
               gamma_loc = gamma_loc + _fs_it->WeightGet() * prob(i,j);
-              // calculate correction factors
-              gamma[j-1] = gamma_loc;
               j++;
              }
+      // calculate correction factors
+      gamma[i-1] = gamma_loc;
       i++;
       }
       //cout << "probabilities " << prob << endl;
@@ -99,7 +99,7 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
       _new_samples = _filtered_samples;
       // new weights for filtered samples
       i = 1 ;
-      double tot_weight; // sum of weights needed to normalize
+      double tot_weight = 0.0; // sum of weights needed to normalize
       vector<double> weight (_new_samples.size()); // vector of weights of particles
       for ( _ns_it=_new_samples.begin(); _ns_it != _new_samples.end() ; _ns_it++)
         {
@@ -108,7 +108,7 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
           for (_os_it = _old_samples.begin(); _os_it !=_old_samples.end() ; _os_it++)
           {
               if (gamma[j-1]!=0){
-                  delta = delta + _os_it->WeightGet() * prob(i,j) / gamma[j-1];
+                  delta = delta + _os_it->WeightGet() * prob(j,i) / gamma[j-1];
               }
               else{}
               j++;
-- 
2.43.0


From 9adbba4640c6b689b9a85a17b5bc5e2a5e3f736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:47 +0000
Subject: [PATCH 21/28] fix: RTS smoother linearised the model at the smoothed
 instead of the filtered state

---
 orocos_bfl/src/smoother/rauchtungstriebel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/smoother/rauchtungstriebel.cpp b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
index 1cd51fd..fe5551f 100644
--- a/orocos_bfl/src/smoother/rauchtungstriebel.cpp
+++ b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
@@ -61,8 +61,8 @@ namespace BFL
   {
     _x = _post->ExpectedValueGet();
     _xf = filtered_post->ExpectedValueGet();
-    _F = ((AnalyticSys*)sysmodel)->df_dxGet(u,_x);
-    _Q = ((AnalyticSys*)sysmodel)->CovarianceGet(u,_x);
+    _F = ((AnalyticSys*)sysmodel)->df_dxGet(u,_xf);
+    _Q = ((AnalyticSys*)sysmodel)->CovarianceGet(u,_xf);
 
     _Ppred = _F * (Matrix)filtered_post->CovarianceGet() * _F.transpose() + (Matrix)_Q;
     _Pxx = (Matrix)filtered_post->CovarianceGet() * _F.transpose();
-- 
2.43.0


From 146cfb765a6f01ec17bcbc2114bda7cee2a20b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:10 +0000
Subject: [PATCH 22/28] fix: extended Kalman particle filter used stale samples
 and covariances in its weights

UpdateWeightsInternal read ParticleFilter::_old_samples, which the
shadowing member of EKParticleFilter never let change, and evaluated every
proposal with the covariance of the last sample. Resampling kept the old
weights and stepped before the first sample for a zero draw.
---
 orocos_bfl/src/filter/EKparticlefilter.cpp | 59 +++++++++++++++++++---
 orocos_bfl/src/filter/EKparticlefilter.h   |  9 +++-
 2 files changed, 59 insertions(+), 9 deletions(-)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index 30c9a5b..2a55bc2 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -39,7 +39,6 @@ namespace BFL
 
     _sampleCov.assign(_num_samples,prior->CovarianceGet());
     _tmpCov.assign(_num_samples,prior->CovarianceGet());
-    _old_samples.assign(_num_samples,WeightedSample<ColumnVector>(_dimension));
     _result_samples.assign(_num_samples,WeightedSample<ColumnVector>(_dimension));
     _unif_samples.assign(_num_samples,0.0);
     _CumPDF.assign(_num_samples,0.0);
@@ -98,22 +97,21 @@ namespace BFL
     unsigned int index = 0;
     _oit = _old_samples.begin();
     _CumPDF = (dynamic_cast<MCPdf<CV> *>(this->_post))->CumulativePDFGet();
-    _CumPDFit = _CumPDF.begin();
+    _CumPDFit = _CumPDF.begin() + 1;
     _rit = _result_samples.begin();
     _cov_it = _sampleCov.begin(); _tmpCovit = _tmpCov.begin();
 
     for ( int i = 0; i < numsamples ; i++)
       {
-	while ( _unif_samples[i] > *_CumPDFit )
+	// _CumPDFit is the upper limit of the interval of sample _oit
+	while ( (_unif_samples[i] > *_CumPDFit) && (index < (unsigned int)numsamples - 1) )
 	  {
-	    assert(index <= (unsigned int)numsamples);
 	    index++; _oit++; _CumPDFit++; _cov_it++;
-
 	  }
-	_oit--; _cov_it--;
 	*(_rit) = *(_oit);
-    *_tmpCovit = *_cov_it;
-	_oit++; _cov_it++;
+	// all samples have the same weight after resampling
+	_rit->WeightSet(1.0/numsamples);
+	*_tmpCovit = *_cov_it;
 
 	_rit++; _tmpCovit++;
       }
@@ -134,6 +132,8 @@ namespace BFL
 
     _ns_it = _new_samples.begin();
     _cov_it = _sampleCov.begin();
+    // the weights need the covariances of the old samples
+    _tmpCov = _sampleCov;
 
     for ( _os_it=_old_samples.begin(); _os_it != _old_samples.end() ; _os_it++)
       {
@@ -181,4 +181,47 @@ namespace BFL
     return (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesUpdate(_new_samples);
 
   }
+
+  bool
+  EKParticleFilter::UpdateWeightsInternal(SystemModel<CV>* const sysmodel,
+					  const CV& u,
+					  MeasModel<CV,CV>* const measmodel,
+					  const CV& z,
+					  const CV& s)
+  {
+    _new_samples = (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesGet();
+    _os_it = _old_samples.begin();
+    _tmpCovit = _tmpCov.begin();
+
+    for ( _ns_it=_new_samples.begin(); _ns_it != _new_samples.end() ; _ns_it++)
+      {
+	const CV& x_new = _ns_it->ValueGet();
+	const CV& x_old = _os_it->ValueGet();
+	Probability weightfactor = 1;
+
+	// the inputs, measurement and sensor parameters are still set
+	dynamic_cast<FilterProposalDensity *>(this->_proposal)->SampleCovSet(*_tmpCovit);
+	_proposal->ConditionalArgumentSet(0,x_old);
+
+	if (measmodel->SystemWithoutSensorParams())
+	  weightfactor = measmodel->ProbabilityGet(z,x_new);
+	else
+	  weightfactor = measmodel->ProbabilityGet(z,x_new,s);
+
+	Probability proposed = _proposal->ProbabilityGet(x_new);
+	if (proposed != 0)
+	  {
+	    if (sysmodel->SystemWithoutInputs())
+	      weightfactor = weightfactor * ( sysmodel->ProbabilityGet(x_new,x_old) / proposed );
+	    else
+	      weightfactor = weightfactor * ( sysmodel->ProbabilityGet(x_new,x_old,u) / proposed );
+	  }
+	else weightfactor = 0;
+
+	_ns_it->WeightSet(_ns_it->WeightGet() * weightfactor);
+	_os_it++;
+	_tmpCovit++;
+      }
+    return (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesUpdate(_new_samples);
+  }
 }
diff --git a/orocos_bfl/src/filter/EKparticlefilter.h b/orocos_bfl/src/filter/EKparticlefilter.h
index d5b02a2..b468aa5 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.h
+++ b/orocos_bfl/src/filter/EKparticlefilter.h
@@ -46,7 +46,6 @@ namespace BFL
       // helper variables for resampleing to prevent memory allocation on the heap
       const int _dimension;
       const int _num_samples;
-      std::vector<WeightedSample<ColumnVector> > _old_samples;
       std::vector<WeightedSample<ColumnVector> >::iterator _oit;
       std::vector<WeightedSample<ColumnVector> > _result_samples;
       std::vector<WeightedSample<ColumnVector> >::iterator _rit;
@@ -70,6 +69,14 @@ namespace BFL
 					const ColumnVector & z,
 					const ColumnVector & s);
 
+      /// The proposal of each sample depends on its covariance, so the
+      /// weights are redefined as well
+      virtual bool UpdateWeightsInternal(SystemModel<ColumnVector> * const sysmodel,
+	                                 const ColumnVector & u,
+	                                 MeasurementModel<ColumnVector,ColumnVector> * const measmodel,
+					 const ColumnVector & z,
+					 const ColumnVector & s);
+
       /// Resample also redefined for the same reasons...
       virtual bool Resample();
 
-- 
2.43.0


From 9e9b23d5324cb63106ab637948a9e228ffadb270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:13 +0000
Subject: [PATCH 23/28] fix: sampling a conditional Gaussian whose dimension
 was set after construction wrote out of bounds

---
 orocos_bfl/src/pdf/conditionalgaussian.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_bfl/src/pdf/conditionalgaussian.cpp b/orocos_bfl/src/pdf/conditionalgaussian.cpp
index e1d9631..b8a9917 100644
--- a/orocos_bfl/src/pdf/conditionalgaussian.cpp
+++ b/orocos_bfl/src/pdf/conditionalgaussian.cpp
@@ -73,6 +73,8 @@ namespace BFL
 
     // Update mu
     _Mu = ExpectedValueGet();
+    // The dimension may have been set after construction
+    if (_samples.rows() != DimensionGet()) _samples.resize(DimensionGet());
 
     switch(method)
       {
-- 
2.43.0


From 1f60c1d2ee48443285a2b805fbafb2c42ad2d556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:19 +0000
Subject: [PATCH 24/28] fix: mixture particle filter counted one time step per
 component

---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index d9bd856..881a3d3 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -192,6 +192,8 @@ MixtureParticleFilter<SV,MV>::ProposalStepInternal(SystemModel<SV> * const sysmo
     {
         result = result && this->ProposalStepInternalOne(i,sysmodel,u,measmodel,z,s);
     }
+    // One time step for all components
+    (this->_timestep)++;
     return result;
 }
 
@@ -244,8 +246,6 @@ MixtureParticleFilter<SV,MV>::ProposalStepInternalOne(int component, SystemModel
       _ns_it++;
     }
 
-  (this->_timestep)++;
-
   // Update the list of samples
   return (dynamic_cast<MCPdf<SV> *>(dynamic_cast<Mixture<SV> *>(this->_post)->ComponentGet(component)))->ListOfSamplesUpdate(_new_samplesVec[component]);
 
-- 
2.43.0


From 5d199ea5404a3fe2ec7fea99eb8af0c37a2a6f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:36 +0000
Subject: [PATCH 25/28] fix: square-root filter mixed up the two kinds of
 triangular factor and kept a stale one after a new prior

---
 .../src/filter/SRiteratedextendedkalmanfilter.cpp     | 11 ++++++++---
 .../src/filter/SRiteratedextendedkalmanfilter.h       |  8 +++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
index ade6dcd..45fae17 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
@@ -50,7 +50,6 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
    // cout<<"post_covar\n"<<_post->CovarianceGet()<<endl;
 
     ((_post->CovarianceGet()).cholesky_semidefinite(JP));
-    JP = JP.transpose();
     // cout<<"JP3\n"<<JP<<endl;
 
   }
@@ -108,7 +107,6 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
          else
          {
                      R_i.cholesky_semidefinite(R_vf);
-                     R_vf = R_vf.transpose();
          }
 
 	// numerical limitations
@@ -164,7 +162,15 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
  {
  	PostMuSet( X_prior );
 	PostSigmaSet( P_prior );
+	P_prior.cholesky_semidefinite(JP);
  }
+
+ void SRIteratedExtendedKalmanFilter::Reset(Pdf<ColumnVector>* prior)
+ {
+	KalmanFilter::Reset(prior);
+	(_post->CovarianceGet()).cholesky_semidefinite(JP);
+ }
+
 void
   SRIteratedExtendedKalmanFilter::CalculateMeasUpdate(ColumnVector z, ColumnVector Z, Matrix H, SymmetricMatrix R)
   {
@@ -195,7 +201,6 @@ void
 	S_temp1.convertToSymmetricMatrix(S_temp);
 
 	S_temp.cholesky_semidefinite(Sr);
-	Sr  = Sr.transpose();
 
 	invS = Sr.inverse();
 	K_i  = JP*(JP.transpose())*(H_i.transpose())*(invS.transpose())*invS;
diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
index 0016778..c348c88 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
@@ -73,6 +73,8 @@ namespace BFL
 			      const MatrixWrapper::ColumnVector& s);
        /// Perform a measurement update use a measurement model, measurements z
       virtual void MeasUpdate(MeasurementModel<MatrixWrapper::ColumnVector,MatrixWrapper::ColumnVector>* const measmodel,const MatrixWrapper::ColumnVector& z);
+      /// Reset Filter: the square root of the covariance follows the given prior
+      virtual void Reset(Pdf<MatrixWrapper::ColumnVector>* prior);
       /// Returns a square root of the covariance of the measurement input u
       MatrixWrapper::Matrix SRCovarianceGet() const;
       /// Set the square root covariance to a specific value
@@ -83,7 +85,7 @@ namespace BFL
       /** Calculate Kalman filter Measurement Update
       \f[ x_k = x_{k-} + K.(z - Z) \f]
       \f[ S=(H_k*J_k*J_k^{'}*H_k+D*R*D^{'})^{'} \f]
-      \f[ Sr=cholesky(S)^{'}\f]
+      \f[ Sr=cholesky(S)\f]
       \f[ J_k = J_k-J_k*J_k^{'}*H^{'}*inv(S)^{'}*inv(R+Sr)*H_k*J_k  \f]
       with
       \f[ K = J_{k}*J_{k}^{'}*H'*inv(S)^{'}*inv(S) \f]
@@ -92,7 +94,7 @@ namespace BFL
 
       /// Calculate K_i , invS and  Sr
       /**
-       \f[ Sr= cholesky(H_i*JP*JP^{'}*H_i^{'}+R_i)^{'}  \f]
+       \f[ Sr= cholesky(H_i*JP*JP^{'}*H_i^{'}+R_i)  \f]
        \f[ invS=inv(Sr)\f]
        \f[ K_i=JP*JP^{'}*H_i^{'}*invS^{'}*invS \f]
        */
@@ -114,7 +116,7 @@ namespace BFL
     private:
       /// Variable indicating the number of iterations of the filter
       unsigned int nr_iterations;
-      /// the upper triangular matrix cholesky decompostion of the state covariance (\f$ JP*JP^{'}=P \f$)
+      /// the lower triangular matrix cholesky decompostion of the state covariance (\f$ JP*JP^{'}=P \f$)
       MatrixWrapper::Matrix JP;
       /// inv(S) matrix
       //BFL::Matrix invS;
-- 
2.43.0


From cb49507233783cd16a522cb0ab4331f29b648b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:36 +0000
Subject: [PATCH 26/28] fix: drawing zero samples in ordered (RIPLEY) mode
 leaves memory alone

---
 orocos_bfl/src/pdf/discretepdf.cpp | 1 +
 orocos_bfl/src/pdf/mcpdf.h         | 1 +
 orocos_bfl/src/pdf/mixture.h       | 1 +
 3 files changed, 3 insertions(+)

diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index 552c64e..6eaa690 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -151,6 +151,7 @@ namespace BFL
       case SampleMthd::RIPLEY: // See mcpdf.cpp for more explanation
 	  {
 	    list_samples.resize(num_samples);
+	    if (num_samples == 0) return true; // nothing to draw
 	    // GENERATE N ORDERED IID UNIFORM SAMPLES
 	    std::vector<double> unif_samples(num_samples);
 	    for ( unsigned int i = 0; i < num_samples ; i++)
diff --git a/orocos_bfl/src/pdf/mcpdf.h b/orocos_bfl/src/pdf/mcpdf.h
index 93fee9b..9cf6fea 100644
--- a/orocos_bfl/src/pdf/mcpdf.h
+++ b/orocos_bfl/src/pdf/mcpdf.h
@@ -249,6 +249,7 @@ namespace BFL
 	  */
 	  // GENERATE N ORDERED IID UNIFORM SAMPLES
 	  {
+	    if (numsamples == 0) return true; // nothing to draw
 	    std::vector<double> unif_samples(numsamples);
 	    for ( unsigned int i = 0; i < numsamples ; i++)
 	      unif_samples[i] = runif();
diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index 3b2a41e..c12d986 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -317,6 +317,7 @@ template<typename T>
       case SampleMthd::RIPLEY: // See mcpdf.cpp for more explanation
 	  {
 	    list_samples.resize(num_samples);
+	    if (num_samples == 0) return true; // nothing to draw
 	    // GENERATE N ORDERED IID UNIFORM SAMPLES
 	    std::vector<double> unif_samples(num_samples);
 	    for ( unsigned int i = 0; i < num_samples ; i++)
-- 
2.43.0


From 2ec96eecc3af6d37db46a831c43365a24209a03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:36 +0000
Subject: [PATCH 27/28] fix: moments of a sample-based density constructed
 without a dimension

---
 orocos_bfl/src/pdf/mcpdf.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/orocos_bfl/src/pdf/mcpdf.cpp b/orocos_bfl/src/pdf/mcpdf.cpp
index a6e4891..fdb4555 100644
--- a/orocos_bfl/src/pdf/mcpdf.cpp
+++ b/orocos_bfl/src/pdf/mcpdf.cpp
@@ -76,6 +76,9 @@ namespace BFL
   template <> inline
   ColumnVector MCPdf<ColumnVector>::ExpectedValueGet (  ) const
   {
+    // the dimension is only known from the samples if none was given at construction
+    if (!_listOfSamples.empty())
+      _CumSum.resize(_listOfSamples.front().ValueGet().rows());
     _CumSum = 0.0;
     _los = _listOfSamples;
     for ( _it_los = _los.begin() ; _it_los != _los.end() ; _it_los++ )
@@ -89,6 +92,7 @@ namespace BFL
   {
     _mean = (this->ExpectedValueGet());
     _los = _listOfSamples;
+    _diffsum.resize(_mean.rows(),_mean.rows());
     _diffsum = 0.0;
     // Actual calculation
     for (_it_los = _los.begin(); _it_los != _los.end(); _it_los++)
@@ -143,6 +147,7 @@ namespace BFL
       }
 
     // Biased estimator!! (unbiased possible with weighted samples??)
+    _covariance.resize(1);
     _covariance(1,1) = (diffsum / _SumWeights);
     return _covariance;
   }
-- 
2.43.0


From 7bdc58a46d5e60121d11315bb0e351dac0c5e08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:36 +0000
Subject: [PATCH 28/28] fix: covariance of unsigned samples that lie far apart

---
 orocos_bfl/src/pdf/mcpdf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_bfl/src/pdf/mcpdf.cpp b/orocos_bfl/src/pdf/mcpdf.cpp
index fdb4555..90ff8b4 100644
--- a/orocos_bfl/src/pdf/mcpdf.cpp
+++ b/orocos_bfl/src/pdf/mcpdf.cpp
@@ -134,7 +134,7 @@ namespace BFL
   SymmetricMatrix MCPdf<unsigned int>::CovarianceGet (  ) const
   {
     unsigned int mean = this->ExpectedValueGet();
-    unsigned int diff;
+    double diff;
     double diffsum, current_weight;
     _los = _listOfSamples;
     diffsum = 0.0;
@@ -142,8 +142,8 @@ namespace BFL
     for (_it_los = _los.begin(); _it_los != _los.end(); _it_los++)
       {
 	current_weight = _it_los->WeightGet();
-	diff = (_it_los->ValueGet() - mean);
-	diffsum += (((double)(diff * diff)) * current_weight);
+	diff = ((double)_it_los->ValueGet() - (double)mean);
+	diffsum += ((diff * diff) * current_weight);
       }
 
     // Biased estimator!! (unbiased possible with weighted samples??)
-- 
2.43.0

