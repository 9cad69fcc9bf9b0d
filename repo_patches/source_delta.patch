From 858aaa319138ec326c8a8fca359cd290eaf2e9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 01/32] fix: initialise BarvinokParameters::debug_triangulation

---
 code/latte/barvinok/barvinok.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/latte/barvinok/barvinok.cpp b/code/latte/barvinok/barvinok.cpp
index b88e3fc..5897edc 100644
--- a/code/latte/barvinok/barvinok.cpp
+++ b/code/latte/barvinok/barvinok.cpp
@@ -66,6 +66,7 @@ BarvinokParameters::BarvinokParameters() :
   nonsimplicial_subdivision(false),
   triangulation_special_cone(NULL),
   triangulation_prescribed_height_data(NULL),
+  debug_triangulation(false),
   triangulation_assume_fulldim(true),
   dualization(
 #ifdef HAVE_FORTYTWO_LIB
-- 
2.43.0


From 2685c2760d64af3523c66367c4f0144c619f509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 02/32] fix: CheckEmpty: count the nonnegativity rows also when
 a linearity line follows

---
 code/latte/CheckEmpty.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/CheckEmpty.cpp b/code/latte/CheckEmpty.cpp
index 91fecc7..d7295c7 100644
--- a/code/latte/CheckEmpty.cpp
+++ b/code/latte/CheckEmpty.cpp
@@ -86,7 +86,7 @@ void CheckEmpty(const char * Filename){
   mat_ZZ entries;
   entries.SetDims(numOfConsts, numOfDims);
   // cerr << "here2" << endl;
-  if(flag == 2) hold = numOfDims - 1;
+  if(nonneg[0] == 'y') hold = numOfDims - 1;
   for(int i = 0; i < numOfEqu; i++) conv(equs[i], Index[i]);
   //  cerr << "ther" << endl; 
  for(int i = 0; i < numOfConsts; i++)
-- 
2.43.0


From 7dd43dc05225d3d06782d0dfcf83e3cb8510a5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 03/32] fix: CheckRed: count the nonnegativity rows also when a
 linearity line follows

---
 code/latte/ReadingFile.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/latte/ReadingFile.cpp b/code/latte/ReadingFile.cpp
index 211f6ea..658ac05 100644
--- a/code/latte/ReadingFile.cpp
+++ b/code/latte/ReadingFile.cpp
@@ -49,6 +49,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
   int numOfConsts, numOfDims, numOfEqu = 0, flag = 0;
   string tmpString;
   int numOfNonneg = 0, hold = 0;
+  bool haveNonneg = false;
   vec_ZZ Index, Index2;
   cerr << "Removing redundant inequalities and finding hidden equalities....";
   cerr.flush();
@@ -68,6 +69,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
     else if((tmpString == "NONNEGATIVE") || (tmpString == "nonnegative")){
       strcpy(nonneg, "yes");
       flag = 2;
+      haveNonneg = true;
       IN >> numOfNonneg;
       Index2.SetLength(numOfNonneg);
       for(int i = 0; i < numOfNonneg; i++) IN >> Index2[i];
@@ -82,7 +84,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
   mat_ZZ entries;
   entries.SetDims(numOfConsts, numOfDims);
   // cerr << "here2" << endl;
-  if(flag == 2) hold = numOfDims - 1;
+  if(haveNonneg) hold = numOfDims - 1;
   for(int i = 0; i < numOfEqu; i++) conv(equs[i], Index[i]);
   //  cerr << "ther" << endl; 
  for(int i = 0; i < numOfConsts; i++)
@@ -176,7 +178,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
       
   }
     in2.close();
-  if(flag == 2) strcpy(nonneg, "no");
+  if(haveNonneg) strcpy(nonneg, "no");
   tmpString = "a";
   if(numOfEqu2 == 0) equ[0] = 'n';
   ifstream in3("Check_red.out");
-- 
2.43.0


From b824bf7272861939f4b0d55548b2d151fa0f7e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 04/32] fix: --dilation: dilate the equations before
 eliminating them

Otherwise a polytope whose affine hull misses the integer lattice, but whose
dilation does not, was reported to have no lattice points.
---
 code/latte/preprocess.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/code/latte/preprocess.cpp b/code/latte/preprocess.cpp
index 70a0b5c..48dab5b 100644
--- a/code/latte/preprocess.cpp
+++ b/code/latte/preprocess.cpp
@@ -248,7 +248,7 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 			sol.SetLength(*numOfVars);
 			Solve.SetDims(*numOfVars, *numOfVars);
 			for (i = 0; i < *numOfVars; i++) {
-				sol[i] = tmp -> first[0];
+				sol[i] = to_ZZ(dil) * tmp -> first[0];
 				for (j = 1; j < *numOfVars + 1; j++)
 					Solve[i][j - 1] = -tmp -> first[j];
 				tmp = tmp -> rest;
@@ -295,7 +295,7 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 		flag = 1;
 
 	while (tmp) {
-		rhs[ind2] = (tmp->first)[0];
+		rhs[ind2] = to_ZZ(dil) * (tmp->first)[0];
 		for (i = 0; i < (*numOfVars); i++) {
 			H[ind] = (tmp->first)[i + 1];
 			ind++;
@@ -570,7 +570,7 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 	for (i = 0; i < lengthListVector(inequalities); i++) {
 		a = tmp->first;
 		b = createVector(newNumOfVars + 1);
-		b[0] = a[0];
+		b[0] = to_ZZ(dil) * a[0];
 		for (k = 0; k < (*numOfVars); k++) {
 			b[0] = b[0] + a[k + 1] * particularSolution[k];
 		}
@@ -589,9 +589,6 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 		ZZ check_Tri;
 		for (int i = 1; i < newNumOfVars; i++)
 			check_Tri += abs(b[i]);
-		ZZ tmp_dil;
-		conv(tmp_dil, dil);
-		b[0] = tmp_dil * b[0];
 		if (check_Tri != 0) {
 			endNewInequalities->rest = createListVector(b);
 			endNewInequalities = endNewInequalities->rest;
-- 
2.43.0


From dd49786f805fce4551b32b95acfd725d9131c5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 05/32] fix: LattException::what() returned a pointer into a
 destroyed string

---
 code/latte/LattException.cpp | 7 ++++---
 code/latte/LattException.h   | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/code/latte/LattException.cpp b/code/latte/LattException.cpp
index 5cc1350..44ce8d1 100644
--- a/code/latte/LattException.cpp
+++ b/code/latte/LattException.cpp
@@ -58,9 +58,10 @@ string  LattException::printErrorMessages() const
 
 const char* LattException::what() const throw()
 {
-	string s = "";
+	//what() returns a pointer, so the text has to live as long as the exception.
+	whatMessage = "";
 	if ( LATTEXCEPTION_PRINTSTATUS || printStatus == 1 )
-	s = printErrorMessages();
+	whatMessage = printErrorMessages();
 
-	return s.c_str();
+	return whatMessage.c_str();
 }
diff --git a/code/latte/LattException.h b/code/latte/LattException.h
index 812d996..3341dfe 100644
--- a/code/latte/LattException.h
+++ b/code/latte/LattException.h
@@ -92,6 +92,7 @@ private:
 	int lineNumber;
 	string fileName;
 	bool printStatus;
+	mutable string whatMessage; //the text what() returned.
 };
 
 #endif /* LATTEXCEPTION_H_ */
-- 
2.43.0


From 04bc2e88852c7ccb546b85db918c870e96f0f086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 06/32] fix: integrateLinFormProducts: a zero coefficient of
 t^M means a zero integral

found was uninitialised when the product polynomial is zero, and the assertion
aborted products of linear forms whose integral over a simplex is 0.
---
 code/latte/integration/newIntegration.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/latte/integration/newIntegration.cpp b/code/latte/integration/newIntegration.cpp
index 58aef7a..3575be0 100644
--- a/code/latte/integration/newIntegration.cpp
+++ b/code/latte/integration/newIntegration.cpp
@@ -477,7 +477,7 @@ RationalNTL integrateLinFormProducts(PolyIterator<RationalNTL, ZZ>* it, const si
 	finalPoly->setTrie(polynomialProduct.myMonomials, polynomialProduct.varCount);
 	finalPoly->begin();
 	term<RationalNTL, int>* storedTerm;
-	bool found;
+	bool found = false;
 	while ((storedTerm = finalPoly->nextTerm()) != 0)
 	{
 		found = true;
@@ -494,7 +494,8 @@ RationalNTL integrateLinFormProducts(PolyIterator<RationalNTL, ZZ>* it, const si
 			break;
 		}//found coeff. of highest term.
 	}//while
-	assert(found == true);
+	if (found == false)
+		answer = 0; //the coefficient of t^M is zero.
 
 	return answer;
 }//integrateLinFormProducts
-- 
2.43.0


From fe139447bb833bb8e2a0f401fd0697795eda333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 07/32] fix: products of linear forms: multiply equal and
 constant factors

Factors with equal form and power were added up in the linFormSum that holds a
product, and constant (power 0) or zero factors were added, rejected or lost.
---
 code/latte/integration/consumers.h | 58 +++++++++++++++++++++++++++---
 1 file changed, 54 insertions(+), 4 deletions(-)

diff --git a/code/latte/integration/consumers.h b/code/latte/integration/consumers.h
index 05de22c..b164da2 100644
--- a/code/latte/integration/consumers.h
+++ b/code/latte/integration/consumers.h
@@ -3,6 +3,7 @@
 
 #include "blockReps.h"
 #include "burstTrie.h"
+#include "iterators.h"
 
 //trie-based
 
@@ -37,6 +38,9 @@ public:
  };
 
 
+void insertLinForm(const RationalNTL&, int, const vec_ZZ&, linFormSum&);
+void destroyLinForms(linFormSum&);
+
 //consumers for loading data structures
 template <class T> class MonomialLoadConsumer : public MonomialConsumer<T> {
 public:
@@ -68,12 +72,58 @@ template <class T> class FormProductLoadConsumer : public FormProductConsumer<T>
 public:
    FormProductLoadConsumer():formProductSum(NULL)  {}
   // Take linear form and consume it (add it to a product)
+  //
+  // The terms of a linFormSum are keyed by form and power, and terms with equal keys are added.
+  // In a product they have to be multiplied instead, so powers of the same form are joined and
+  // constant factors (power 0) are moved into the coefficient.
   void ConsumeLinForm(int index, const T& coefficient, int degree, const vec_ZZ& coefs)
   {
-	  T coefficientFactorial(coefficient);
-	  for(int i = 2; i <= degree; ++i)
-		  coefficientFactorial *= i;
-	  insertLinForm(coefficientFactorial, degree, coefs, (*formProductSum)[index]);
+	  linFormSum &product = (*formProductSum)[index];
+	  T newCoefficient(coefficient);
+	  int newDegree = degree;
+	  vec_ZZ newForm(coefs);
+
+	  if (product.termCount > 0)
+	  {
+		  linFormSum others;
+		  others.varCount = product.varCount;
+		  BTrieIterator<T, ZZ> it;
+		  it.setTrie(product.myForms, product.varCount);
+		  it.begin();
+		  term<T, ZZ>* factor;
+		  while ((factor = it.nextTerm()) != 0)
+		  {
+			  vec_ZZ form;
+			  form.SetLength(factor->length);
+			  for (int i = 0; i < factor->length; ++i)
+				  form[i] = factor->exps[i];
+			  if (factor->degree == 0 || newDegree == 0 || form == newForm)
+			  {
+				  T plain(factor->coef);
+				  for (int i = 2; i <= factor->degree; ++i)
+					  plain.div(to_ZZ(i));
+				  newCoefficient *= plain;
+				  if (newDegree == 0)
+					  newForm = form;
+				  newDegree += factor->degree;
+			  }
+			  else
+				  insertLinForm(factor->coef, factor->degree, form, others);
+		  }
+		  destroyLinForms(product);
+		  product = others;
+	  }
+
+	  if (newCoefficient == 0)
+	  {
+		  //zero coefficients cannot be stored: keep the zero as a factor 0^1.
+		  newCoefficient = 1;
+		  newDegree = 1;
+		  clear(newForm);
+	  }
+	  for(int i = 2; i <= newDegree; ++i)
+		  newCoefficient *= i;
+	  insertLinForm(newCoefficient, newDegree, newForm, product);
   }
   //add a new sum (of products of linear forms)
   void ConsumeLinFormProduct(linFormSum &linformsum) {formProductSum->myFormProducts.push_back(linformsum);}
-- 
2.43.0


From 6bf6392f246c715f89141c1b45332d2ea6e3a9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:40 +0000
Subject: [PATCH 08/32] fix: ConeInfo::Hash_Integer_Vector: avoid signed
 overflow

---
 code/latte/ConeInfo.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/code/latte/ConeInfo.cpp b/code/latte/ConeInfo.cpp
index 886ca84..41f789b 100644
--- a/code/latte/ConeInfo.cpp
+++ b/code/latte/ConeInfo.cpp
@@ -1391,20 +1391,16 @@ int	ConeInfo::Calculate_Integral_Point (vec_ZZ &Temp_Vector)
 
 int	ConeInfo::Hash_Integer_Vector (int *Integer_Array)
 {
-	int	Return_Value = 0;	
+	// Unsigned, because the sum may exceed the range of int.
+	unsigned int	Return_Value = 0;	
 
 	for (int i = 0; i < Number_of_Generators; i++)
 	{
-		Return_Value += Hash_Function_Coefficients[i] * Integer_Array[i];
+		Return_Value += (unsigned int) Hash_Function_Coefficients[i] * (unsigned int) Integer_Array[i];
 	
 	}
 		
-	Return_Value = Return_Value % HASH_TABLE_SIZE;
-	
-	if (Return_Value >= 0)
-		return Return_Value;
-	else
-		return (-1)*Return_Value;
+	return (int) (Return_Value % HASH_TABLE_SIZE);
 }
 
 vec_ZZ	Calculate_Pertubation (listCone *cones, vec_ZZ *Cost, int Mod_Value, int Number_of_Variables)
-- 
2.43.0


From e60efeedf07cf27b28b1fb2733418413a01e3f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 09/32] fix: bbs: an empty subproblem is a count of 0, not an
 error

---
 code/latte/binarySearchIP.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/code/latte/binarySearchIP.cpp b/code/latte/binarySearchIP.cpp
index 24d80af..067b516 100644
--- a/code/latte/binarySearchIP.cpp
+++ b/code/latte/binarySearchIP.cpp
@@ -159,16 +159,31 @@ void createLatteFileEqu(listVector* matrix, listVector* ineq, int numOfVars, ZZ
 }
 /* ----------------------------------------------------------------- */
 
+// Count the lattice points of latte_BS.  The exit status of `count' does not
+// matter: it is non-zero for an empty polytope, where it writes the number 0.
+static ZZ CountLatteBS()
+{
+  ZZ NumOfLatticePoints;
+  system_with_error_check("rm -f numOfLatticePoints");
+  string command = shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count")) + " latte_BS > latte_BS.out";
+  int status = system(command.c_str());
+  ifstream in("numOfLatticePoints");
+  if (!(in >> NumOfLatticePoints)) {
+    cerr << "Command `" << command << "' returned with exit status "
+	 << status << " and did not count the lattice points." << endl;
+    exit(1);
+  }
+  return NumOfLatticePoints;
+}
+/* ----------------------------------------------------------------- */
+
 ZZ OptimalCheckEqu(listVector* matrix, listVector* ineq, int numOfVars, ZZ rhs, vec_ZZ lhs)
 {
   ZZ NumOfLatticePoints;
 
   //system_with_error_check("rm numOfLatticePoints");
   createLatteFileEqu(matrix, ineq, numOfVars + 1, rhs, lhs);
-  system_with_error_check(shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count")) + " latte_BS > latte_BS.out");
-
-  ifstream in("numOfLatticePoints");
-  in >> NumOfLatticePoints;
+  NumOfLatticePoints = CountLatteBS();
   system_with_error_check("rm -f latte_BS*");
 
   return NumOfLatticePoints;
@@ -217,13 +232,7 @@ ZZ OptimalCheck(listVector* matrix, listVector* ineq, int numOfVars, ZZ rhs, vec
 
   //system_with_error_check("rm -f numOfLatticePoints");
   createLatteFile(matrix, ineq, numOfVars + 1, rhs, lhs);
-  if(lengthListVector(matrix) != 0)
-    system_with_error_check("time " + shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count")) + " latte_BS > latte_BS.out");
-  else
-    system_with_error_check("time " + shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count")) + " latte_BS > latte_BS.out");
-
-  ifstream in("numOfLatticePoints");
-  in >> NumOfLatticePoints;
+  NumOfLatticePoints = CountLatteBS();
 
   ifstream in2("numOfUnimodularCones");
   ZZ numOfUniCones;
-- 
2.43.0


From fbc60c5568da3c1534184a9319d1af2d80d8865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 10/32] fix: latte-minimize bbs: sign of an optimal value found
 right away

---
 code/latte/binarySearchIP.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/latte/binarySearchIP.cpp b/code/latte/binarySearchIP.cpp
index 067b516..ee6e341 100644
--- a/code/latte/binarySearchIP.cpp
+++ b/code/latte/binarySearchIP.cpp
@@ -307,7 +307,8 @@ ZZ binarySearch(listVector* matrix, listVector* ineq, vec_ZZ cost, int numOfVars
       }
 
       if(IsZero(Opt) == 0){
-        cerr << "The optimal value: " << high - 1 << endl << endl;
+        // For minimization, the cost function was negated.
+        cerr << "The optimal value: " << ((min[0] == 'y') ? 1 - high : high - 1) << endl << endl;
 	return Opt;
 	}
        else{
-- 
2.43.0


From ebd64a72aa0a4af5dbb49ba3b16bbcb297466f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 11/32] fix: --cdd: accept H-representations with rational
 entries

---
 code/latte/latte_cddlib.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/latte/latte_cddlib.cpp b/code/latte/latte_cddlib.cpp
index 0d18d66..ec6711b 100644
--- a/code/latte/latte_cddlib.cpp
+++ b/code/latte/latte_cddlib.cpp
@@ -111,8 +111,12 @@ cddlib_matrix_to_equations_and_inequalities(dd_MatrixPtr matrix,
     vec_ZZ ineq;
     ineq.SetLength(numOfVars + 1);
     int j;
+    /* The file may have rational entries; scale the row to integers. */
+    mpz_class scale = 1;
+    for (j = 0; j<=numOfVars; j++)
+      mpz_lcm(scale.get_mpz_t(), scale.get_mpz_t(), mpq_denref(matrix->matrix[i][j]));
     for (j = 0; j<=numOfVars; j++) {
-      ineq[j] = convert_mpq_to_ZZ(matrix->matrix[i][j]);
+      ineq[j] = convert_mpz_to_ZZ(mpq_class(mpq_class(matrix->matrix[i][j]) * scale).get_num());
     }
     if (set_member(i + 1, matrix->linset))
       (*equations) = new listVector(ineq, *equations);
-- 
2.43.0


From c59d5370caba3e6f120ecfa270529c4bdcb039a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 12/32] fix: generating functions with equations:
 non-unimodular cones have several lattice points

---
 code/latte/ProjectUp.cpp | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/code/latte/ProjectUp.cpp b/code/latte/ProjectUp.cpp
index 8e866c7..29f37d4 100644
--- a/code/latte/ProjectUp.cpp
+++ b/code/latte/ProjectUp.cpp
@@ -121,32 +121,15 @@ listCone* ProjectUp2(listCone* cone, int & oldNumOfVars, int & newNumOfVars,
   
   while(current_cone)
     {
-      /* FIXME: Handle non-unimodular cones */
       assert(current_cone->latticePoints != NULL);
-      assert(current_cone->latticePoints->rest == NULL);
       
-      //  cerr << " Here 1" << endl;
-      i = 0;
-      newVector = b;
-      
-      for(i = 0; i < oldNumOfVars; i++){	  
-	newVector[i] += AA[i] * current_cone->latticePoints->first;
+      // One lattice point for a unimodular cone, several for other cones.
+      for (temp = current_cone->latticePoints; temp; temp = temp->rest) {
+	newVector = b;
+	for(i = 0; i < oldNumOfVars; i++)
+	  newVector[i] += AA[i] * temp->first;
+	temp->first = newVector;
       }
-      
-      //  cerr << " Here 2" << endl;
-      /*    for(i = oldNumOfVars - newNumOfVars; i < oldNumOfVars; i++)
-	    {
-	    newVector[i] = current_cone->latticePoints->first[i - oldNumOfVars + newNumOfVars];
-	    }*/
-	// cerr << " Here 3" << endl;
-      delete current_cone->latticePoints;
-      current_cone->latticePoints = new listVector;
-      current_cone->latticePoints->rest = NULL;
-      
-      current_cone->latticePoints->first.SetLength(oldNumOfVars);
-      //  cerr << " Here 4" << endl;
-      for(i = 0; i < oldNumOfVars; i++)
-	current_cone->latticePoints->first[i] = newVector[i];
 
       /* FIXME: Handle the vertex. */
       
-- 
2.43.0


From 0d0fc23560b4aee109bca7aabb906b8ea4e82fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 13/32] fix: ConvertCDDineToLatte: keep the linearity line

---
 code/latte/convertCDD_ine_to_latte.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code/latte/convertCDD_ine_to_latte.cpp b/code/latte/convertCDD_ine_to_latte.cpp
index 32e6907..8a03499 100644
--- a/code/latte/convertCDD_ine_to_latte.cpp
+++ b/code/latte/convertCDD_ine_to_latte.cpp
@@ -28,13 +28,18 @@ int main( int argc, const char* argv[] )
 	ifstream input(argv[1]);
 	ofstream output(argv[2]);
 	string line;
+	string linearity;
 	vector<RationalNTL> hRep;
 	long numRows, ambDim;
 	ZZ lcmDenom;
 
 	while ( getline(input, line))
+	{
 		if ( line == "begin")
 			break;
+		if ( line.compare(0, 9, "linearity") == 0)
+			linearity = line;	//the same line means the same in a latte file.
+	}
 //	getline(input, line);
 
 	input >> numRows >> ambDim;
@@ -59,6 +64,9 @@ int main( int argc, const char* argv[] )
 
 	}//for each row.
 
+	if ( !linearity.empty())
+		output << linearity << endl;
+
 	input.close();
 	output.close();
 	return 0;
-- 
2.43.0


From 4aa7eeb4be458ccae0c092e1631613f70cb76b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 14/32] fix: --triangulation=4ti2: triangulate non-simplicial
 cones also when the random heights are trivial

---
 .../RegularTriangulationWith4ti2.cpp          | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/code/latte/triangulation/RegularTriangulationWith4ti2.cpp b/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
index e7ca3ba..20feb4c 100644
--- a/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
+++ b/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
@@ -82,6 +82,32 @@ static bool lindep_heights_p(listCone *cone, BarvinokParameters *Parameters,
 		return false;
 }
 
+static bool simplicial_p(listCone *cone, BarvinokParameters *Parameters)
+{
+	int num_rays = lengthListVector(cone->rays);
+	VectorArray *ray_column_matrix = rays_to_transposed_4ti2_VectorArray(
+			cone->rays, Parameters->Number_of_Variables,
+			/* extra_rows: */0);
+	int rank = upper_triangle(*ray_column_matrix,
+			Parameters->Number_of_Variables, num_rays);
+	delete ray_column_matrix;
+	return rank == num_rays;
+}
+
+/* The heights yield the trivial polyhedral subdivision: the cone itself.
+   Unless that is simplicial (or the caller accepts non-simplicial cones),
+   try again with a random height vector. */
+static void consume_trivial_subdivision(listCone *cone,
+		BarvinokParameters *Parameters, ConeConsumer &consumer)
+{
+	if (Parameters->nonsimplicial_subdivision
+			|| simplicial_p(cone, Parameters))
+		consumer.ConsumeCone(copyCone(cone));
+	else
+		triangulate_cone_with_4ti2(cone, Parameters, random_height,
+				&Parameters->triangulation_max_height, consumer);
+}
+
 void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
 		height_function_type height_function, void *height_function_data,
 		ConeConsumer &consumer)
@@ -113,7 +139,7 @@ void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
 		 a copy of the cone. */
 		//cerr << "Trivial test: Lifting heights yield trivial polyhedral subdivision." << endl;
 		Parameters->num_triangulations_with_trivial_heights++;
-		consumer.ConsumeCone(copyCone(cone));
+		consume_trivial_subdivision(cone, Parameters, consumer);
 		return;
 	}
 
@@ -123,7 +149,7 @@ void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
 		//cerr << "Rank test: Lifting heights yield trivial polyhedral subdivision." << endl;
 		Parameters->num_triangulations_with_dependent_heights++;
 #ifndef DEBUG_RANKTEST
-		consumer.ConsumeCone(copyCone(cone));
+		consume_trivial_subdivision(cone, Parameters, consumer);
 		return;
 #endif
 	}
-- 
2.43.0


From db4e5a4346135c4d60094f174291255e0b7eec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:03 +0000
Subject: [PATCH 15/32] fix: hilbert-from-rays --max-facets: subdivide only
 beyond N facets, never a simplicial cone

---
 code/latte/normalize/normalize.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/latte/normalize/normalize.cpp b/code/latte/normalize/normalize.cpp
index 9f6c2e8..e19dd4c 100644
--- a/code/latte/normalize/normalize.cpp
+++ b/code/latte/normalize/normalize.cpp
@@ -260,7 +260,9 @@ handle_cone(listCone *t, int t_count, int t_total, int level)
       stats << endl;
     }
   }
-  else if (num_facets < max_facets) {
+  else if (num_facets <= max_facets
+	   || num_rays == params.Number_of_Variables) {
+    // Not more than max_facets facets, or simplicial (nothing to subdivide).
     // Use zsolve to compute the Hilbert basis.
 
     int cone_dimension = params.Number_of_Variables - lengthListVector(t->equalities);
-- 
2.43.0


From 86b0a9d618dbe0e902aface3c50bc5a67aefaf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 16/32] fix: LattE input files: refuse headers and keyword
 indices out of range instead of writing out of bounds

---
 code/latte/CheckEmpty.cpp     | 17 ++++++++++++++++-
 code/latte/ReadLatteStyle.cpp | 27 +++++++++++++++++++++++----
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/code/latte/CheckEmpty.cpp b/code/latte/CheckEmpty.cpp
index d7295c7..ae2869f 100644
--- a/code/latte/CheckEmpty.cpp
+++ b/code/latte/CheckEmpty.cpp
@@ -21,6 +21,7 @@
 
 #include <string.h>
 #include <stdio.h>
+#include <vector>
 
 #include "config.h"
 #include "barvinok/dec.h"
@@ -46,6 +47,12 @@
 #include "latte_relocatable.h"
 #include "LattException.h"
 
+static void parse_error(const char *Filename)
+{
+  cerr << "Read error on input file " << Filename << " in CheckEmpty." << endl;
+  THROW_LATTE(LattException::fe_Parse, 0);
+}
+
 void CheckEmpty(const char * Filename){
   int numOfConsts, numOfDims, numOfEqu = 0, flag = 0;
   string tmpString;
@@ -65,6 +72,7 @@ void CheckEmpty(const char * Filename){
     if(tmpString == "linearity"){
       strcpy(equ, "yes");
       IN >> numOfEqu; 
+      if (!IN || numOfEqu < 0) parse_error(Filename);
       Index.SetLength(numOfEqu);
       for(int i = 0; i < numOfEqu; i++) IN >> Index[i];
       flag = 1;
@@ -73,6 +81,7 @@ void CheckEmpty(const char * Filename){
       strcpy(nonneg, "yes");
       flag = 2;
       IN >> numOfNonneg;
+      if (!IN || numOfNonneg < 0) parse_error(Filename);
       Index2.SetLength(numOfNonneg);
       for(int i = 0; i < numOfNonneg; i++) IN >> Index2[i];
     }
@@ -81,7 +90,13 @@ void CheckEmpty(const char * Filename){
   // cerr << "here" << endl;
   in >> numOfConsts >> numOfDims;
   //  cerr << numOfConsts << " " << numOfDims << endl; 
-  int equs[numOfConsts];
+  if (!in || numOfConsts < 1 || numOfDims < 1) parse_error(Filename);
+  // The indices of the keyword lines must name rows and variables.
+  for(int i = 0; i < numOfEqu; i++)
+    if (Index[i] < 1 || Index[i] > numOfConsts) parse_error(Filename);
+  for(int i = 0; i < numOfNonneg; i++)
+    if (Index2[i] < 1 || Index2[i] > numOfDims - 1) parse_error(Filename);
+  vector<int> equs(numOfEqu);
   //ZZ cost[numOfDims - 1];
   mat_ZZ entries;
   entries.SetDims(numOfConsts, numOfDims);
diff --git a/code/latte/ReadLatteStyle.cpp b/code/latte/ReadLatteStyle.cpp
index 9a069e3..4a35778 100644
--- a/code/latte/ReadLatteStyle.cpp
+++ b/code/latte/ReadLatteStyle.cpp
@@ -27,6 +27,7 @@
 #include "latte_cddlib.h"
 #include "vertices/cdd.h"
 #include "LattException.h"
+#include <climits>
 #include <vector>
 
 using namespace std;
@@ -41,6 +42,15 @@ static void check_stream(const istream &f, const char *fileName,
 }
 ;
 
+static void check_range(int value, int min, int max, const char *fileName,
+		const char *proc) {
+	if (value < min || value > max) {
+		cerr << "Number " << value << " out of range on input file " << fileName
+				<< " in " << proc << "." << endl;
+		THROW_LATTE(LattException::fe_Parse, 0);
+	}
+}
+
 dd_MatrixPtr ReadLatteStyleMatrix(const char *fileName, bool vrep,
 		bool homogenize, bool nonnegativity) {
 	ifstream f(fileName);
@@ -91,6 +101,9 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 	int num_homog = homogenize ? 1 : 0;
 	int numOfVars_hom = numOfVars + num_homog;
 	check_stream(f, fileName, "ReadLatteStyleMatrix");
+	check_range(numOfVectors, 0, INT_MAX, fileName, "ReadLatteStyleMatrix");
+	check_range(numOfVars, 1, INT_MAX - num_homog, fileName,
+			"ReadLatteStyleMatrix");
 	dd_MatrixPtr matrix = dd_CreateMatrix(numOfVectors, numOfVars_hom);
 	matrix->numbtype = dd_Rational;
 	if (vrep)
@@ -124,6 +137,8 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 				int index; /* 1-based */
 				f >> index;
 				check_stream(f, fileName, "ReadLatteStyleMatrix");
+				check_range(index, 1, matrix->rowsize, fileName,
+						"ReadLatteStyleMatrix");
 				set_addelem(matrix->linset, index /* 1-based */);
 			}
 		} else if (strcmp(buffer, "nonnegative") == 0) {
@@ -135,13 +150,17 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 			int num_nonnegative;
 			f >> num_nonnegative;
 			check_stream(f, fileName, "ReadLatteStyleMatrix");
-			vector<int> nonnegatives(num_nonnegative);
+			check_range(num_nonnegative, 0, INT_MAX, fileName,
+					"ReadLatteStyleMatrix");
+			vector<int> nonnegatives;
 			int k;
 			for (k = 0; k < num_nonnegative; k++) {
 				int index; /* 1-based */
 				f >> index;
 				check_stream(f, fileName, "ReadLatteStyleMatrix");
-				nonnegatives[k] = index;
+				check_range(index, 1, numOfVars - 1, fileName,
+						"ReadLatteStyleMatrix");
+				nonnegatives.push_back(index);
 			}
 			// Create a new matrix that includes non-negativity
 			// inequalities.
@@ -161,9 +180,9 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 		}
 	}
 	if (nonnegativity) {
-		vector<int> nonnegatives(numOfVars);
+		vector<int> nonnegatives(numOfVars - 1);
 		int k;
-		for (k = 0; k < numOfVars; k++)
+		for (k = 0; k < numOfVars - 1; k++)
 			nonnegatives[k] = k + 1; /* 1-based indices */
 		dd_MatrixPtr new_matrix = add_nonnegativity(matrix, nonnegatives,
 				num_homog);
-- 
2.43.0


From 3d3e6f6e6fb7899834f39edd0f12358f0d360167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 17/32] fix: count --vrep: read the vertex file by numbers, and
 fail on malformed or unbounded input

---
 code/latte/vertices/cdd.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/code/latte/vertices/cdd.cpp b/code/latte/vertices/cdd.cpp
index 77edb13..2224e53 100644
--- a/code/latte/vertices/cdd.cpp
+++ b/code/latte/vertices/cdd.cpp
@@ -19,6 +19,7 @@
  Inc., 59 Temple Place, Suite 330, Boston, MA 02111-1307 USA.
  */
 
+#include <gmpxx.h>
 #include "config.h"
 #include "cone.h"
 #include "print.h"
@@ -311,7 +312,7 @@ void createCddExtFile(listVector* matrix, int numOfVars)
 void createCddExtFile2(const char* filename)
 {
 	int i, numOfVec, numOfVars;
-	string tmpString;
+	mpq_class x;
 	// listVector* tmp;
 	ifstream in(filename);
 	if (!in.good())
@@ -320,16 +321,29 @@ void createCddExtFile2(const char* filename)
 		exit(1);
 	}
 	in >> numOfVec >> numOfVars;
+	if (!in || numOfVec < 1 || numOfVars < 1)
+	{
+		cerr << "Read error on input file `" << filename << "'" << endl;
+		exit(1);
+	}
 	ofstream OUT;
-	getline(in, tmpString);
 	OUT.open("latte_cdd.ext");
 	OUT << "V-representation" << endl;
 	OUT << "begin" << endl;
 	OUT << numOfVec << " " << numOfVars << " integer" << endl;
 	for (i = 0; i < numOfVec; i++)
 	{
-		getline(in, tmpString);
-		OUT << tmpString << endl;
+		for (int j = 0; j < numOfVars; j++)
+		{
+			in >> x;
+			if (!in)
+			{
+				cerr << "Read error on input file `" << filename << "'" << endl;
+				exit(1);
+			}
+			OUT << x << " ";
+		}
+		OUT << endl;
 	}
 	OUT << "end" << endl;
 	OUT << "hull" << endl;
@@ -552,7 +566,7 @@ listCone* readCddExtFile(int &numOfVars)
 			if (read == '0')
 			{
 				cerr << "\n\nreadCddExtFile:: Unbounded polytope!" << endl << endl;
-				exit(0);
+				exit(1);
 			}
 		}
 
@@ -600,9 +614,7 @@ listCone* readCddExtFile(int &numOfVars)
 				if (x == 0)
 				{
 					cerr << "\n\nreadCddExtFile:: Given polyhedron is unbounded!!!(2)\n\n";
-					ofstream Empty("numOfLatticePoints");
-					Empty << 0 << endl;
-					exit(0);
+					exit(1);
 				}
 				//Ok, we have just read in the leading "1"...which could be something else if the vertex is not integer.
 				//Save the rational number.
-- 
2.43.0


From 12761a56d78760a861b65ddcb8442a225841266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:47 +0000
Subject: [PATCH 18/32] fix: latte-maximize/minimize: perturb the cost by less
 than its scale when rays have negative entries

---
 code/latte/ConeInfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/ConeInfo.cpp b/code/latte/ConeInfo.cpp
index 41f789b..51ac967 100644
--- a/code/latte/ConeInfo.cpp
+++ b/code/latte/ConeInfo.cpp
@@ -1458,7 +1458,7 @@ vec_ZZ	Calculate_Pertubation (listCone *cones, vec_ZZ *Cost, int Mod_Value, int
 				if (tmpVector->first[i] >= 0 && tmpVector->first[i] > Maximum_Coordinate)
 					Maximum_Coordinate = tmpVector->first[i];
 				if (tmpVector->first[i] <= 0 && -1* tmpVector->first[i] > Maximum_Coordinate)
-					Maximum_Coordinate = tmpVector->first[i];
+					Maximum_Coordinate = -1 * tmpVector->first[i];
 
 		
 			}
-- 
2.43.0


From f7ca7104ca34ebb0ac83fad63836d411e6eb0595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:47 +0000
Subject: [PATCH 19/32] fix: latte-maximize/minimize bbs: round the LP bounds
 exactly instead of in floating point

---
 code/latte/binarySearchIP.cpp | 54 +++++++++++++++++------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/code/latte/binarySearchIP.cpp b/code/latte/binarySearchIP.cpp
index ee6e341..e359b3d 100644
--- a/code/latte/binarySearchIP.cpp
+++ b/code/latte/binarySearchIP.cpp
@@ -248,13 +248,33 @@ ZZ OptimalCheck(listVector* matrix, listVector* ineq, int numOfVars, ZZ rhs, vec
 
 /* ----------------------------------------------------------------- */
 
+// cost . x, exactly, as a quotient with positive denominator.
+static void ScalarProduct(const vec_ZZ &cost, rationalVector *x, int numOfVars, ZZ &num, ZZ &den)
+{
+  num = 0;
+  den = 1;
+  for (int i = 0; i < numOfVars; i++) {
+    num = num * x->denominators()[i] + cost[i] * x->numerators()[i] * den;
+    den *= x->denominators()[i];
+  }
+  if (sign(den) < 0) {
+    num = -num;
+    den = -den;
+  }
+}
+
+static ZZ CeilOfQuotient(const ZZ &num, const ZZ &den)
+{
+  return -((-num) / den);	// division of ZZ rounds down
+}
+/* ----------------------------------------------------------------- */
+
 ZZ binarySearch(listVector* matrix, listVector* ineq, vec_ZZ cost, int numOfVars, char * min)
 {
       int i = 0, counter = 0;
       ZZ low, high, mid, Opt, TotalNumOfUniCones;
       rationalVector *Low_opt, *High_opt;
-      vec_RR Low_solution, High_solution, tmp_den, tmp_num, Rat_cost, Rat_cost2;
-      RR Rat_low, Rat_high;
+      ZZ num, den;
       vec_ZZ low_cost;
       // cerr << cost << endl;
       low_cost = -cost;
@@ -270,34 +290,14 @@ ZZ binarySearch(listVector* matrix, listVector* ineq, vec_ZZ cost, int numOfVars
       //cerr << Low_opt ->denominators() << " " << High_opt->denominators()<< endl;
       cerr << "A optimal solution for LP relax.: ";
       printRationalVector(High_opt, numOfVars);
-      Low_solution.SetLength(numOfVars);
-      High_solution.SetLength(numOfVars);
-      tmp_den.SetLength(numOfVars);
-      tmp_num.SetLength(numOfVars);
-      Rat_cost.SetLength(numOfVars);
-      Rat_cost2.SetLength(numOfVars);
-
-      for (i = 0; i < numOfVars; i++){
-      	 conv(tmp_num[i], High_opt->numerators()[i]);
-	 conv(tmp_den[i], High_opt->denominators()[i]);
-       	 High_solution[i] = tmp_num[i]/tmp_den[i];
-	 conv(Rat_cost[i], cost[i]);
-     		}
-
-      for (i = 0; i < numOfVars; i++){
-      	 conv(tmp_num[i], Low_opt->numerators()[i]);
-          conv(tmp_den[i], Low_opt->denominators()[i]);
-       	 Low_solution[i] = tmp_num[i]/tmp_den[i];
-     		}
-
-      Rat_high = Rat_cost * High_solution;
-      Rat_low = (Rat_cost) * Low_solution;
-      cerr << "The optimal value for LP relax.: " << Rat_high << endl << endl;
-      high = CeilToZZ(Rat_high);
+      ScalarProduct(cost, High_opt, numOfVars, num, den);
+      cerr << "The optimal value for LP relax.: " << to_RR(num) / to_RR(den) << endl << endl;
+      high = CeilOfQuotient(num, den);
       Opt = OptimalCheckEqu(matrix, ineq, numOfVars, high, cost);
 
       high += 1;
-      low = CeilToZZ(Rat_low);
+      ScalarProduct(cost, Low_opt, numOfVars, num, den);
+      low = CeilOfQuotient(num, den);
 
       if(high < low) {
         ZZ tmp_ZZ;
-- 
2.43.0


From d6d0415831e867fad15fca6399be46e9c4a956f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:56 +0000
Subject: [PATCH 20/32] fix: ConvertCDDineToLatte: fail on missing, truncated
 or malformed input instead of writing a partial file with status 0

---
 code/latte/convertCDD_ine_to_latte.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/code/latte/convertCDD_ine_to_latte.cpp b/code/latte/convertCDD_ine_to_latte.cpp
index 8a03499..acb0714 100644
--- a/code/latte/convertCDD_ine_to_latte.cpp
+++ b/code/latte/convertCDD_ine_to_latte.cpp
@@ -26,23 +26,31 @@ int main( int argc, const char* argv[] )
 	}
 
 	ifstream input(argv[1]);
-	ofstream output(argv[2]);
 	string line;
 	string linearity;
 	vector<RationalNTL> hRep;
 	long numRows, ambDim;
 	ZZ lcmDenom;
 
+	bool begun = false;
 	while ( getline(input, line))
 	{
 		if ( line == "begin")
+		{
+			begun = true;
 			break;
+		}
 		if ( line.compare(0, 9, "linearity") == 0)
 			linearity = line;	//the same line means the same in a latte file.
 	}
 //	getline(input, line);
 
-	input >> numRows >> ambDim;
+	if (!begun || !(input >> numRows >> ambDim) || numRows < 0 || ambDim < 1)
+	{
+		cerr << "Cannot read a CDD-style H-representation from " << argv[1] << endl;
+		exit(1);
+	}
+	ofstream output(argv[2]);
 	input.ignore(250, '\n');
 	output << numRows << " " << ambDim << endl;
 	hRep.resize(ambDim);
@@ -53,7 +61,11 @@ int main( int argc, const char* argv[] )
 		for(int k  = 0; k < ambDim; ++k)
 		{
 			string temp;
-			input >> temp;
+			if (!(input >> temp) || temp == "end")
+			{
+				cerr << "The matrix in " << argv[1] << " is too short." << endl;
+				exit(1);
+			}
 			hRep[k] = RationalNTL(temp);
 			RationalNTL product;
 			lcmDenom = (hRep[k].getDenominator() * lcmDenom)/ (GCD(lcmDenom, hRep[k].getDenominator()));
-- 
2.43.0


From 8ca79749b6372b7c158c1b6347db08cd841cc7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:56 +0000
Subject: [PATCH 21/32] fix: count --ehrhart-taylor=N: refuse negative N
 instead of writing out of bounds

---
 code/latte/count.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/code/latte/count.cpp b/code/latte/count.cpp
index cc02803..abe6339 100644
--- a/code/latte/count.cpp
+++ b/code/latte/count.cpp
@@ -166,6 +166,11 @@ CountAnswerContainer mainCountDriver(int argc, char *argv[])
 		{
 			strcpy(read_polyhedron_data.taylor, "yes");
 			read_polyhedron_data.degree = atoi(argv[i] + 17);
+			if (read_polyhedron_data.degree < 0)
+			{
+				cerr << "The number of terms must not be negative: " << argv[i] << endl;
+				exit(1);
+			}
 			strcpy(read_polyhedron_data.dualApproach, "yes");
 		} else if (strncmp(argv[i], "--avoid-singularities", 7) == 0)
 		{
-- 
2.43.0


From 0483fada58473c3bc8404a8475677c0a8c277caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:56 +0000
Subject: [PATCH 22/32] fix: latte-maximize/minimize: refuse a malformed or
 mismatched cost file instead of optimising something else

---
 code/latte/maximize.cpp | 13 ++++++++++---
 code/latte/minimize.cpp | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/code/latte/maximize.cpp b/code/latte/maximize.cpp
index 4969c60..26cff1b 100644
--- a/code/latte/maximize.cpp
+++ b/code/latte/maximize.cpp
@@ -208,11 +208,18 @@ int main(int argc, char *argv[]) {
       cerr << "Need a cost input file." << endl;
       exit(3);
     }
-    int costDim, dummy;
-    INCost >> dummy >> costDim; 
+    int costDim, dummy, rows, cols;
+    if (!(INCost >> dummy >> costDim) || costDim <= 0
+	|| (cddstyle[0] == 'n' && ReadTest >> rows >> cols && costDim != cols - 1)) {
+      cerr << "The cost input file does not match the polytope." << endl;
+      exit(3);
+    }
     cost.SetLength(costDim);
     for(i = 0; i < costDim; i++)
-      INCost >> cost[i]; 
+      if (!(INCost >> cost[i])) {
+	cerr << "Cannot read " << costDim << " numbers from the cost input file." << endl;
+	exit(3);
+      }
   }
   //strcpy (fileName,"stdin");
   
diff --git a/code/latte/minimize.cpp b/code/latte/minimize.cpp
index 1935304..e8e1785 100644
--- a/code/latte/minimize.cpp
+++ b/code/latte/minimize.cpp
@@ -208,11 +208,18 @@ int main(int argc, char *argv[]) {
       cerr << "Need a cost input file." << endl;
       exit(3);
     }
-    int costDim, dummy;
-    INCost >> dummy >> costDim; 
+    int costDim, dummy, rows, cols;
+    if (!(INCost >> dummy >> costDim) || costDim <= 0
+	|| (cddstyle[0] == 'n' && ReadTest >> rows >> cols && costDim != cols - 1)) {
+      cerr << "The cost input file does not match the polytope." << endl;
+      exit(3);
+    }
     cost.SetLength(costDim);
     for(i = 0; i < costDim; i++)
-      INCost >> cost[i]; 
+      if (!(INCost >> cost[i])) {
+	cerr << "Cannot read " << costDim << " numbers from the cost input file." << endl;
+	exit(3);
+      }
   }
   //strcpy (fileName,"stdin");
   
-- 
2.43.0


From 82d88c252e42ae92d0c508bd6cd726e6a9967cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:56 +0000
Subject: [PATCH 23/32] fix: top-ehrhart-knapsack: refuse unreadable,
 non-positive or non-primitive lists instead of printing a wrong answer

---
 code/latte/top-knapsack/Driver.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/code/latte/top-knapsack/Driver.cpp b/code/latte/top-knapsack/Driver.cpp
index abd5d51..e9ca354 100644
--- a/code/latte/top-knapsack/Driver.cpp
+++ b/code/latte/top-knapsack/Driver.cpp
@@ -124,12 +124,29 @@ int main(int argc, char *argv[]) {
 	ifstream file;
 	file.open(inFile.c_str());
 	int n;
-	file >> n;
 	vec_ZZ alpha;
+	ZZ gcdOfAll;
+	if (!(file >> n) || n <= 0)
+	{
+		cerr << "Cannot read the length of the list from " << inFile << endl;
+		THROW_LATTE( LattException::fe_Parse);
+	}
 	alpha.SetLength(n);
 
 	for (int i = 0; i < n; ++i)
-		file >> alpha[i];
+	{
+		if (!(file >> alpha[i]) || alpha[i] <= 0)
+		{
+			cerr << "Cannot read " << n << " positive integers from " << inFile << endl;
+			THROW_LATTE( LattException::fe_Parse);
+		}
+		gcdOfAll = GCD(gcdOfAll, alpha[i]);
+	}
+	if (!IsOne(gcdOfAll))
+	{
+		cerr << "The greatest common divisor of the list must be 1." << endl;
+		THROW_LATTE( LattException::fe_Parse);
+	}
 
 	Timer time("Total");
 	time.start();
-- 
2.43.0


From 909a87c5b8593e4d7dd030704bbea98f8ee5e3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 24/32] fix: latte-maximize/minimize: compare the cost
 dimension without overflowing

---
 code/latte/maximize.cpp | 2 +-
 code/latte/minimize.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/latte/maximize.cpp b/code/latte/maximize.cpp
index 26cff1b..eff5466 100644
--- a/code/latte/maximize.cpp
+++ b/code/latte/maximize.cpp
@@ -210,7 +210,7 @@ int main(int argc, char *argv[]) {
     }
     int costDim, dummy, rows, cols;
     if (!(INCost >> dummy >> costDim) || costDim <= 0
-	|| (cddstyle[0] == 'n' && ReadTest >> rows >> cols && costDim != cols - 1)) {
+	|| (cddstyle[0] == 'n' && ReadTest >> rows >> cols && costDim + 1 != cols)) {
       cerr << "The cost input file does not match the polytope." << endl;
       exit(3);
     }
diff --git a/code/latte/minimize.cpp b/code/latte/minimize.cpp
index e8e1785..167406d 100644
--- a/code/latte/minimize.cpp
+++ b/code/latte/minimize.cpp
@@ -210,7 +210,7 @@ int main(int argc, char *argv[]) {
     }
     int costDim, dummy, rows, cols;
     if (!(INCost >> dummy >> costDim) || costDim <= 0
-	|| (cddstyle[0] == 'n' && ReadTest >> rows >> cols && costDim != cols - 1)) {
+	|| (cddstyle[0] == 'n' && ReadTest >> rows >> cols && costDim + 1 != cols)) {
       cerr << "The cost input file does not match the polytope." << endl;
       exit(3);
     }
-- 
2.43.0


From b3c6470360bcd9c4c9b998a860e66d726fb991bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 25/32] fix: emptiness check: read rational entries and refuse
 truncated rows instead of answering for a zero-filled matrix

---
 code/latte/CheckEmpty.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/latte/CheckEmpty.cpp b/code/latte/CheckEmpty.cpp
index ae2869f..2fb6440 100644
--- a/code/latte/CheckEmpty.cpp
+++ b/code/latte/CheckEmpty.cpp
@@ -46,6 +46,7 @@
 #include "latte_system.h"
 #include "latte_relocatable.h"
 #include "LattException.h"
+#include "latte_gmp.h"
 
 static void parse_error(const char *Filename)
 {
@@ -98,15 +99,15 @@ void CheckEmpty(const char * Filename){
     if (Index2[i] < 1 || Index2[i] > numOfDims - 1) parse_error(Filename);
   vector<int> equs(numOfEqu);
   //ZZ cost[numOfDims - 1];
-  mat_ZZ entries;
-  entries.SetDims(numOfConsts, numOfDims);
+  /* ReadLatteStyleMatrix accepts rational entries, so the check must too. */
+  vector<vector<mpq_class> > entries(numOfConsts, vector<mpq_class>(numOfDims));
   // cerr << "here2" << endl;
   if(nonneg[0] == 'y') hold = numOfDims - 1;
   for(int i = 0; i < numOfEqu; i++) conv(equs[i], Index[i]);
   //  cerr << "ther" << endl; 
  for(int i = 0; i < numOfConsts; i++)
     for(int j = 0; j < numOfDims; j++)
-      { in >> entries[i][j]; }
+      { if (!(in >> entries[i][j])) parse_error(Filename); }
  //  cerr << "here3" << endl;
  // printListVector(CheckRedIneq(entries), numOfDims);
  if((equ[0] == 'y') && (flag == 0)){ in >> numOfEqu;
-- 
2.43.0


From 5723169f456998b2dcfb32c07c61f285419b1439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:27 +0000
Subject: [PATCH 26/32] fix: count --ehrhart-taylor=0 and ehrhart N with N < 1:
 refuse instead of crashing

---
 code/latte/count.cpp   | 4 ++--
 code/latte/ehrhart.cpp | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/code/latte/count.cpp b/code/latte/count.cpp
index abe6339..ad15b3e 100644
--- a/code/latte/count.cpp
+++ b/code/latte/count.cpp
@@ -166,9 +166,9 @@ CountAnswerContainer mainCountDriver(int argc, char *argv[])
 		{
 			strcpy(read_polyhedron_data.taylor, "yes");
 			read_polyhedron_data.degree = atoi(argv[i] + 17);
-			if (read_polyhedron_data.degree < 0)
+			if (read_polyhedron_data.degree < 1)
 			{
-				cerr << "The number of terms must not be negative: " << argv[i] << endl;
+				cerr << "The number of terms must be positive: " << argv[i] << endl;
 				exit(1);
 			}
 			strcpy(read_polyhedron_data.dualApproach, "yes");
diff --git a/code/latte/ehrhart.cpp b/code/latte/ehrhart.cpp
index 400cfa9..24e6cbf 100644
--- a/code/latte/ehrhart.cpp
+++ b/code/latte/ehrhart.cpp
@@ -215,6 +215,10 @@ int main(int argc, char *argv[]) {
   if(printfile[0] == 'y') print_flag = 1;
   if(taylor[0] == 'y'){
     degree = atoi(argv[argc - 2]);
+    if (degree < 1) {
+      cerr << "The number of terms must be positive: " << argv[argc - 2] << endl;
+      exit(1);
+    }
   }
   if(rationalCone[0] == 'y'){
     
-- 
2.43.0


From 3393ce8c87994f7e892242a91af2bac832bfc0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:28 +0000
Subject: [PATCH 27/32] fix: latte-maximize/minimize printed negative
 coordinates of the LP vertex as 0, and a wrong LP value, when equations were
 eliminated

---
 code/latte/preprocess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/preprocess.cpp b/code/latte/preprocess.cpp
index 48dab5b..54f9118 100644
--- a/code/latte/preprocess.cpp
+++ b/code/latte/preprocess.cpp
@@ -1011,7 +1011,7 @@ vec_RR ProjectingUpRR(mat_RR ProjU, vec_RR cost, int numOfVars) {
 				answer[i] += cost[j - 1] * ProjU[i][j];
 
 			}
-			if (answer[i] < power2_RR(-10))
+			if (abs(answer[i]) < power2_RR(-80))
 				answer[i] = 0;
 		}
 	}// cerr << answer << endl;
-- 
2.43.0


From 1ac08cd1c53ba2b11552ee867bf9d2ce3ece253e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:10 +0000
Subject: [PATCH 28/32] fix: aggregate: read the matrix in its original, not
 the homogenized, form

The file description was passed in the place of the homogenize flag, so
an extra zero column was inserted and the right-hand sides were rejected
as coefficients of the wrong sign.
---
 code/latte/aggregation/aggregation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/latte/aggregation/aggregation.cpp b/code/latte/aggregation/aggregation.cpp
index b706742..2ea3e5a 100644
--- a/code/latte/aggregation/aggregation.cpp
+++ b/code/latte/aggregation/aggregation.cpp
@@ -133,7 +133,9 @@ int main(int argc, const char **argv)
 {
   if(argc < 2) usage();
 
-  dd_MatrixPtr matrix = ReadLatteStyleMatrix(cin, false, "standard input");
+  dd_MatrixPtr matrix = ReadLatteStyleMatrix(cin, /* vrep: */ false,
+					      /* homogenize: */ false,
+					      "standard input");
 
   dd_rowset aggset;
   set_initialize(&aggset, matrix->rowsize);
-- 
2.43.0


From 8a515c5f8a636306c399c6ee947637caf90fc39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:01 +0000
Subject: [PATCH 29/32] fix: aggregate: keep the multipliers non-zero when all
 right-hand sides are zero

With lambda = 0 the aggregated equation was 0 = 0 and all the aggregated
constraints were lost.
---
 code/latte/aggregation/aggregation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/latte/aggregation/aggregation.cpp b/code/latte/aggregation/aggregation.cpp
index 2ea3e5a..d860b6c 100644
--- a/code/latte/aggregation/aggregation.cpp
+++ b/code/latte/aggregation/aggregation.cpp
@@ -40,7 +40,9 @@ dd_MatrixPtr KannanAggregation(dd_MatrixPtr matrix,
   int num_cols = matrix->colsize;
   int num_aggrows = set_card(aggrows);
   int num_slacks = 0;
-  mpz_class b_max, A_max;
+  // At least 1, so that lambda does not vanish when all right-hand
+  // sides or all coefficients are zero.
+  mpz_class b_max = 1, A_max = 1;
   int i, k;
   for (i = 0; i<num_rows; i++) {
     if (set_member(i + 1, aggrows)) {
-- 
2.43.0


From a22a5de7e34f22b73045e235a80680fe94181bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:40 +0000
Subject: [PATCH 30/32] fix: cdd triangulation: choose new heights when the
 random heights are not generic

Non-simplicial facets of the lifted configuration overran the list of
simplices.
---
 code/latte/barvinok/Triangulation.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/code/latte/barvinok/Triangulation.cpp b/code/latte/barvinok/Triangulation.cpp
index dfcad75..1dcb41d 100644
--- a/code/latte/barvinok/Triangulation.cpp
+++ b/code/latte/barvinok/Triangulation.cpp
@@ -259,8 +259,10 @@ int Triangulation_Load_Save (const mat_ZZ & Mat, const int & m, const int & n, c
 
   int count = 0;
   int ZZToInt = 0;
+  bool simplicial = true;
   for(int i = 0; i < face2; i++){
     if(neg[i] == 1 ){
+      if (numOfPoints[i] != n) simplicial = false;
       for(int j = 0; j < numOfPoints[i]; j++)
         if(Result[i][j] != 0){
           conv(ZZToInt, Result[i][j]);
@@ -273,6 +275,7 @@ int Triangulation_Load_Save (const mat_ZZ & Mat, const int & m, const int & n, c
     cerr << "Triangulation: Interesting case..." << endl;
     for(int i = 0; i < face2; i++){
       if(neg[i] == 0 ){
+	if (numOfPoints[i] != n) simplicial = false;
 	for(int j = 0; j < numOfPoints[i]; j++)
 	  if(Result[i][j] != 0){
             conv(ZZToInt, Result[i][j]);
@@ -283,6 +286,15 @@ int Triangulation_Load_Save (const mat_ZZ & Mat, const int & m, const int & n, c
     }
   }
 	
+  if (!simplicial && (!(Flags & LOAD) || File_Present == 0)) {
+    // The random heights were not generic; choose new ones.
+    cerr << "Triangulation: Not simplicial, choosing new heights." << endl;
+    List.clear();
+    if (Integer_String_Original!=NULL)
+      delete [] Integer_String_Original;
+    return Triangulation_Load_Save(Mat, m, n, a, List, File_Name, Cone_Index, Flags);
+  }
+
   	if ( (Flags & SAVE)  && ( !(Flags & LOAD) || File_Present == 0)  )
 	{
 		//save files to triangulation/[File_Name][Cone_Index].tar.gz 	
-- 
2.43.0


From 6266adc1467ddc87b86831982b3f80ce60fce93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:05 +0000
Subject: [PATCH 31/32] fix: preprocessProblem: linearly dependent equations
 and single points

With --redundancy-check=none, dependent equations made the check for an
integer solution of the equations disappear (2x+2y=3 given twice counted 12
points), more equations than variables were read out of bounds, and a
single point without remaining inequalities counted as 0.
---
 code/latte/preprocess.cpp | 153 +++++++++-----------------------------
 1 file changed, 34 insertions(+), 119 deletions(-)

diff --git a/code/latte/preprocess.cpp b/code/latte/preprocess.cpp
index 54f9118..51ffefe 100644
--- a/code/latte/preprocess.cpp
+++ b/code/latte/preprocess.cpp
@@ -233,53 +233,14 @@ void Interior(listVector* basis) {
 listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 		vec_ZZ **generators, int *numOfVars, vec_ZZ & cost, mat_ZZ & ProjU,
 		char* interior, int dil) {
-	int i, j, k, ind, ind2, indSol, lenOfMatrix, lenOfBasis,
+	int i, j, k, ind, ind2, lenOfMatrix, lenOfBasis,
 			numOfIndependentRows, numOfRows, numOfVectors, newNumOfVars;
 	ZZ det;
 	vec_ZZ a, b, bas, rhs, A, U, H, sol, particularSolution;
 	listVector *tmp, *tmp2, *basis, *endBasis, *newInequalities,
 			*endNewInequalities;
-	mat_ZZ M, unimodM, Solve;
+	mat_ZZ M, unimodM;
 	//  cerr << *numOfVars << lengthListVector(equations) << endl;
-	if (inequalities == 0) {
-		if (lengthListVector(equations) == *numOfVars) {
-			tmp = equations;
-			i = 0;
-			sol.SetLength(*numOfVars);
-			Solve.SetDims(*numOfVars, *numOfVars);
-			for (i = 0; i < *numOfVars; i++) {
-				sol[i] = to_ZZ(dil) * tmp -> first[0];
-				for (j = 1; j < *numOfVars + 1; j++)
-					Solve[i][j - 1] = -tmp -> first[j];
-				tmp = tmp -> rest;
-			}
-			// cerr << Solve << sol << endl;
-			vec_ZZ x;
-			ZZ d, sum, sum2;
-			mat_ZZ Inv;
-			inv(d, Inv, Solve);
-			x = Inv * sol;
-			for (i = 0; i < *numOfVars; i++)
-				sum += x[i];
-			for (i = 0; i < *numOfVars; i++)
-				sum2 += x[i] / d;
-			//cerr << d << " " <<sum << " " <<d*sum2 << x << endl; exit(0);
-			if (sum == d * sum2) {
-				ofstream OUT("numOfLatticePoints");
-				cerr << "The number of lattice points is 1." << endl;
-				OUT << 1 << endl;
-				exit(0);
-			} else {
-				cerr << "The number of lattice points is 0." << endl;
-				ofstream OUT("numOfLatticePoints");
-				OUT << 0 << endl;
-				exit(0);
-			}
-		} else {
-			cerr << "The polytope is not bounded." << endl;
-			exit(1);
-		}
-	}
 	numOfRows = lengthListVector(equations);
 
 	lenOfMatrix = (*numOfVars) * numOfRows;
@@ -358,48 +319,7 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 	 U contains the unimodular transformation matrix, and
 	 H contains the Hermite normal form.
 	 We have A.U = H. */
-	mat_ZZ UU, HH, HHH;
-	UU.SetDims(*numOfVars, *numOfVars);
-	HH.SetDims(numOfRows, *numOfVars);
-	HHH.SetDims(numOfRows, numOfRows);
-
-	int counter = 0;
-	for (i = 0; i < *numOfVars; i++) {
-		for (j = 0; j < *numOfVars; j++) {
-			UU[i][j] = U[counter];
-			counter++;
-		}
-	}
-
-	counter = 0;
-	for (i = 0; i < numOfRows; i++) {
-		for (j = 0; j < *numOfVars; j++) {
-			HH[i][j] = H[counter];
-			counter++;
-		}
-	}
-
-	for (i = 0; i < numOfRows; i++) {
-		for (j = 0; j < numOfRows; j++) {
-			HHH[i][j] = HH[i][j];
-		}
-	}
-
-	// cerr << HH << UU << endl;
-	//  cerr << rhs << endl;
-	ZZ DD, zeros;
-	mat_ZZ invHH;
-	inv(DD, invHH, HHH);
-	//  cerr <<  invHH <<endl << rhs << endl << DD << endl;
-	vec_ZZ sol2;
 	sol = createVector(*numOfVars);
-	sol2 = createVector(*numOfVars);
-	if (DD != 0) {
-	  vec_ZZ solb = invHH * rhs;
-	  for (i = 0; i < solb.length(); i++)
-	    sol2[i] = solb[i];
-	}
-
 	for (i = 0; i < (*numOfVars); i++)
 		sol[i] = 0;
 	//    cerr << "sol:\n";
@@ -407,41 +327,32 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 	//    cerr << "numOfRows " << numOfRows << endl;
 	//    cerr << "numOfVars " << *numOfVars << endl;
 
-	indSol = 0;
-	for (i = 0; i < numOfRows; i++) {
-		if (H[(*numOfVars) * i + i] != 0) {
-			//    cerr << "numOfRows " << numOfRows << endl;
-			//    cerr << "numOfVars " << *numOfVars << endl;
-			//    cerr << "lenOfMatrix " << lenOfMatrix << endl;
-			//    cerr << "(i,i) " << (*numOfVars)*i+i << endl;
-			//        cerr << i << " " << indSol << " " << rhs[i] << " "
-			//  	   << H[(*numOfVars)*i+i] << endl;
-			// cerr << "Mmm..." << endl;
-			sol[i] = rhs[i] / H[(*numOfVars) * i + i];
-			indSol++;
-			for (j = i + 1; j < numOfRows; j++) {
-				rhs[j] = rhs[j] - sol[i] * H[j * (*numOfVars) + i];
-				//	H[j*(*numOfVars)+i]=0;
-			}
-		}
-	}
+	/* The first numOfIndependentRows rows of H are lower triangular with
+	 nonzero diagonal entries, and the remaining rows depend on them.  So
+	 the solution of H.sol = rhs is unique; it may fail to be integer,
+	 or to exist. */
+	bool hasIntegerSolution = true;
+	for (i = 0; i < numOfIndependentRows; i++) {
+		const ZZ &pivot = H[(*numOfVars) * i + i];
+		sol[i] = rhs[i] / pivot;
+		if (sol[i] * pivot != rhs[i])
+			hasIntegerSolution = false;
+		for (j = i + 1; j < numOfRows; j++)
+			rhs[j] = rhs[j] - sol[i] * H[j * (*numOfVars) + i];
+	}
+	for (i = numOfIndependentRows; i < numOfRows; i++)
+		if (rhs[i] != 0)
+			hasIntegerSolution = false;
 	cerr << "sol:\n";
-	//    int flag_sol = 0;
 	printVectorToFile(cerr, sol, *numOfVars);
-	if (DD != 0) {
-		for (i = 0; i < *numOfVars; i++) {
-			zeros = abs(sol2[i] - sol[i] * DD);
-			if (zeros != 0) {
-				cerr << "Integrally empty polytope." << endl;
-				cerr << "\n\n**** Total number of lattice points: 0 ****"
-						<< endl << endl;
-				ofstream OutZero("numOfLatticePoints");
-				OutZero << 0 << endl;
-				exit(0);
-			}
-			zeros = 0;
-		}
-	}//cerr << sol << endl;
+	if (!hasIntegerSolution) {
+		cerr << "Integrally empty polytope." << endl;
+		cerr << "\n\n**** Total number of lattice points: 0 ****"
+				<< endl << endl;
+		ofstream OutZero("numOfLatticePoints");
+		OutZero << 0 << endl;
+		exit(0);
+	}
 	particularSolution = createVector(*numOfVars);
 	for (i = 0; i < (*numOfVars); i++)
 		particularSolution[i] = 0;
@@ -612,14 +523,18 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 	/*    printListVector(inequalities,(*numOfVars)+1); */
 	cerr << "New inequalities:\n";
 	printListVectorToFile(cerr, newInequalities, newNumOfVars + 1);
-	checkListVector(newInequalities, newNumOfVars);
 	if (newInequalities == NULL) {
-
-		cerr << "\n\n****  Total number of lattice points is: 0 ****\n" << endl;
+		if (newNumOfVars > 1) {
+			cerr << "The polytope is not bounded." << endl;
+			exit(1);
+		}
+		/* The equations determine the point, and it satisfies the inequalities. */
 		ofstream out("numOfLatticePoints");
-		out << 0 << endl;
+		cerr << "The number of lattice points is 1." << endl;
+		out << 1 << endl;
 		exit(0);
 	}
+	checkListVector(newInequalities, newNumOfVars);
 	(*numOfVars) = newNumOfVars - 1;
 	return (newInequalities);
 }
-- 
2.43.0


From adb0da79b2db36f6331ff00bf295a7dafcbcfb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:05 +0000
Subject: [PATCH 32/32] fix: IntegrationInput: unweightedCounting was not
 initialised

---
 code/latte/valuation/valuation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/latte/valuation/valuation.cpp b/code/latte/valuation/valuation.cpp
index 98a86ff..a2c83ba 100644
--- a/code/latte/valuation/valuation.cpp
+++ b/code/latte/valuation/valuation.cpp
@@ -1125,6 +1125,7 @@ Valuation::IntegrationInput::IntegrationInput()
 	useTangentCones= false;		//--cone-decompose
 	useTriangulation= false;	//--triangulate
 	polynomialAsPLF= false;		//--polynomial-as-plf
+	unweightedCounting= false;	//--top-ehrhart-unweighted
 }
 
 
-- 
2.43.0

