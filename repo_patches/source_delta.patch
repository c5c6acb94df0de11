From 0835cc10576f71d27eeff1ddb813534ba113a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:59 +0000
Subject: [PATCH 01/67] fix: Rotation::Rot returns identity for a zero rotation
 axis, as documented

---
 orocos_kdl/src/frames.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames.cpp b/orocos_kdl/src/frames.cpp
index 4d478de..1bcc667 100644
--- a/orocos_kdl/src/frames.cpp
+++ b/orocos_kdl/src/frames.cpp
@@ -296,7 +296,8 @@ Rotation Rotation::Rot(const Vector& rotaxis,double angle) {
     // can be found by multiplying it with an arbitrary vector p
     // and noting that this vector is rotated.
     Vector rotvec = rotaxis;
-	rotvec.Normalize();
+	if (rotvec.Normalize() == 0.0)
+		return Rotation::Identity();
 	return Rotation::Rot2(rotvec,angle);
 }
 
-- 
2.43.0


From 6322644ca3aace23288b4001bbe37330d5b14c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:01 +0000
Subject: [PATCH 02/67] fix: Vector::Set2DPlane sets the vector it is called on

---
 orocos_kdl/src/frames.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames.inl b/orocos_kdl/src/frames.inl
index 8349ff1..815942a 100644
--- a/orocos_kdl/src/frames.inl
+++ b/orocos_kdl/src/frames.inl
@@ -710,7 +710,7 @@ void Vector::Set2DPlane(const Frame& F_someframe_XY,const Vector2& v_XY)
 {
 Vector tmp_XY;
 tmp_XY.Set2DXY(v_XY);
-tmp_XY = F_someframe_XY*(tmp_XY);
+*this = F_someframe_XY*(tmp_XY);
 }
 
 
-- 
2.43.0


From 31776351e7fa34dd864b05cb8288fd020929dc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 03/67] fix: Rotation2 element access returned the transposed
 matrix

---
 orocos_kdl/src/frames.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/frames.inl b/orocos_kdl/src/frames.inl
index 815942a..d2d15e9 100644
--- a/orocos_kdl/src/frames.inl
+++ b/orocos_kdl/src/frames.inl
@@ -861,9 +861,9 @@ IMETHOD double Rotation2::operator()(int i,int j) const {
     FRAMES_CHECKI((0<=i)&&(i<=1)&&(0<=j)&&(j<=1));
     if (i==j) return c;
     if (i==0) 
-        return s;
-    else
         return -s;
+    else
+        return s;
 }
 
 
-- 
2.43.0


From 2a82c95c98c3440a0e1b1972d279d3eaed178f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:04 +0000
Subject: [PATCH 04/67] fix: Normalize honours its threshold argument when
 computing the norm

---
 orocos_kdl/src/frames.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/frames.cpp b/orocos_kdl/src/frames.cpp
index 1bcc667..ffe8450 100644
--- a/orocos_kdl/src/frames.cpp
+++ b/orocos_kdl/src/frames.cpp
@@ -102,7 +102,7 @@ namespace KDL {
     // if v is smaller than eps, Vector(1,0) is returned with norm 0.
     // if this is not good, check the return value of this method.
     double Vector2::Normalize(double eps) {
-        double v = this->Norm();
+        double v = this->Norm(eps);
         if (v < eps) {
             *this = Vector2(1,0);
             return 0;
@@ -145,7 +145,7 @@ namespace KDL {
     // if v is smaller than eps, Vector(1,0,0) is returned with norm 0.
     // if this is not good, check the return value of this method.
     double Vector::Normalize(double eps) {
-        double v = this->Norm();
+        double v = this->Norm(eps);
         if (v < eps) {
             *this = Vector(1,0,0);
             return 0;
-- 
2.43.0


From d86626ae9fe105c369782d2aced3221645f039cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:21 +0000
Subject: [PATCH 05/67] fix: RotationVel::RotY rotates about Y

---
 orocos_kdl/src/framevel.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/framevel.inl b/orocos_kdl/src/framevel.inl
index 05aceb0..f43195b 100644
--- a/orocos_kdl/src/framevel.inl
+++ b/orocos_kdl/src/framevel.inl
@@ -214,7 +214,7 @@ void RotationVel::DoRotY(const doubleVel& angle) {
     R.DoRotY(angle.t);
 }
 RotationVel RotationVel::RotY(const doubleVel& angle) {
-    return RotationVel(Rotation::RotX(angle.t),Vector(0,angle.grad,0));
+    return RotationVel(Rotation::RotY(angle.t),Vector(0,angle.grad,0));
 }
 
 void RotationVel::DoRotZ(const doubleVel& angle) {
-- 
2.43.0


From 2d217d2052703589cedb0bd74b754ffd0546b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:07 +0000
Subject: [PATCH 06/67] fix: diff of FrameVel no longer swaps translation and
 rotation

---
 orocos_kdl/src/framevel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/framevel.hpp b/orocos_kdl/src/framevel.hpp
index b84e69c..92ec580 100644
--- a/orocos_kdl/src/framevel.hpp
+++ b/orocos_kdl/src/framevel.hpp
@@ -359,7 +359,7 @@ IMETHOD RotationVel addDelta(const RotationVel& a,const VectorVel&da,double dt=1
 }
 
 IMETHOD TwistVel diff(const FrameVel& a,const FrameVel& b,double dt=1.0) {
-	return TwistVel(diff(a.M,b.M,dt),diff(a.p,b.p,dt));
+	return TwistVel(diff(a.p,b.p,dt),diff(a.M,b.M,dt));
 }
 
 IMETHOD FrameVel addDelta(const FrameVel& a,const TwistVel& da,double dt=1.0) {
-- 
2.43.0


From adcfed930dc7dc0c386ad7f6f0228c8e7076892b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:59 +0000
Subject: [PATCH 07/67] fix: RotationVel::Rot about a zero axis is the identity
 at rest

---
 orocos_kdl/src/framevel.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/framevel.inl b/orocos_kdl/src/framevel.inl
index f43195b..034e3b1 100644
--- a/orocos_kdl/src/framevel.inl
+++ b/orocos_kdl/src/framevel.inl
@@ -231,7 +231,8 @@ RotationVel RotationVel::Rot(const Vector& rotvec,const doubleVel& angle)
 // rotation around a constant vector !
 {
     Vector v(rotvec);
-	v.Normalize();
+	if (v.Normalize() == 0.0)
+		return RotationVel::Identity();
     return RotationVel(Rotation::Rot2(v,angle.t),v*angle.grad);
 }
 
-- 
2.43.0


From 8e80f23444d2bd05adfaf31bc717ac3d47b3d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:41 +0000
Subject: [PATCH 08/67] fix: VectorAcc::Norm does not divide by a zero norm

---
 orocos_kdl/src/frameacc.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_kdl/src/frameacc.inl b/orocos_kdl/src/frameacc.inl
index fa9c23c..312a053 100644
--- a/orocos_kdl/src/frameacc.inl
+++ b/orocos_kdl/src/frameacc.inl
@@ -129,6 +129,8 @@ void VectorAcc::ReverseSign() {
 doubleAcc VectorAcc::Norm(double eps) {
     doubleAcc res;
     res.t  = p.Norm(eps);
+    if (res.t < eps) // as for VectorVel, the norm and its derivatives are 0 below eps
+        return doubleAcc(0, 0, 0);
     res.d  = dot(p,v)/res.t;
     res.dd = (dot(p,dv)+dot(v,v)-res.d*res.d)/res.t;
     return res;
-- 
2.43.0


From 81e36da6dd1f5375d40a30da7de4d045369459ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:40 +0000
Subject: [PATCH 09/67] fix: Rall1d compound product and quotient compile for
 nested Rall1d

---
 orocos_kdl/src/utilities/rall1d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/utilities/rall1d.h b/orocos_kdl/src/utilities/rall1d.h
index 812c69f..b4d9057 100644
--- a/orocos_kdl/src/utilities/rall1d.h
+++ b/orocos_kdl/src/utilities/rall1d.h
@@ -102,14 +102,14 @@ class Rall1d
 
         INLINE Rall1d<T,V,S>& operator /=(const Rall1d<T,V,S>& rhs)
             {
-            grad = LinComb(rhs.t,grad,-t,rhs.grad) / (rhs.t*rhs.t);
+            grad = (grad*rhs.t-t*rhs.grad) / (rhs.t*rhs.t);
             t     /= rhs.t;
             return *this;
             }
 
         INLINE Rall1d<T,V,S>& operator *=(const Rall1d<T,V,S>& rhs)
             {
-            LinCombR(rhs.t,grad,t,rhs.grad,grad);
+            grad = rhs.t*grad+t*rhs.grad;
             t *= rhs.t;
             return *this;
             }
-- 
2.43.0


From 9e9c115236cdb5f1389174ef2ac21bc79740374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 10/67] fix: abs of Rall1d and Rall2d compiles and returns the
 absolute value

---
 orocos_kdl/src/utilities/rall1d.h | 11 ++++++++---
 orocos_kdl/src/utilities/rall2d.h | 10 ++++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/orocos_kdl/src/utilities/rall1d.h b/orocos_kdl/src/utilities/rall1d.h
index b4d9057..3a1846e 100644
--- a/orocos_kdl/src/utilities/rall1d.h
+++ b/orocos_kdl/src/utilities/rall1d.h
@@ -405,12 +405,17 @@ INLINE  Rall1d<T,V,S> acos(const Rall1d<T,V,S>& x)
     return Rall1d<T,V,S>(v,-x.grad/sqrt(1.0-sqr(x.t)));
 }
 
+template <class T,class V,class S>
+INLINE  double sign(const Rall1d<T,V,S>& arg)
+{
+    return sign(arg.t);
+}
+
 template <class T,class V,class S>
 INLINE  Rall1d<T,V,S> abs(const Rall1d<T,V,S>& x)
 {
-    T v;
-    v=(Sign(x));
-    return Rall1d<T,V,S>(v*x,v*x.grad);
+    S v(sign(x.t));
+    return Rall1d<T,V,S>(v*x.t,v*x.grad);
 }
 
 
diff --git a/orocos_kdl/src/utilities/rall2d.h b/orocos_kdl/src/utilities/rall2d.h
index fd6f6f9..5e993c5 100644
--- a/orocos_kdl/src/utilities/rall2d.h
+++ b/orocos_kdl/src/utilities/rall2d.h
@@ -461,11 +461,17 @@ INLINE  Rall2d<T,V,S> atan2(const Rall2d<T,V,S>& y,const Rall2d<T,V,S>& x)
     return tmp;
 }
 
+template <class T,class V,class S>
+INLINE  double sign(const Rall2d<T,V,S>& arg)
+{
+    return sign(arg.t);
+}
+
 template <class T,class V,class S>
 INLINE  Rall2d<T,V,S> abs(const Rall2d<T,V,S>& x)
 {
-    T v(Sign(x));
-    return Rall2d<T,V,S>(v*x,v*x.d,v*x.dd);
+    S v(sign(x.t));
+    return Rall2d<T,V,S>(v*x.t,v*x.d,v*x.dd);
 }
 
 template <class T,class V,class S>
-- 
2.43.0


From ed31d937e51c3d12954b37699ae83478a8a5fc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:26 +0000
Subject: [PATCH 11/67] fix: Rall2d compound product uses the operands'
 original derivatives

---
 orocos_kdl/src/utilities/rall2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/utilities/rall2d.h b/orocos_kdl/src/utilities/rall2d.h
index 5e993c5..2cba995 100644
--- a/orocos_kdl/src/utilities/rall2d.h
+++ b/orocos_kdl/src/utilities/rall2d.h
@@ -114,9 +114,9 @@ class Rall2d
 
         INLINE Rall2d<T,V,S>& operator *=(const Rall2d<T,V,S>& rhs)
             {
-            t *= rhs.t;
-            d  = (d*rhs.t+t*rhs.d);
             dd = (dd*rhs.t+S(2)*d*rhs.d+t*rhs.dd);
+            d  = (d*rhs.t+t*rhs.d);
+            t *= rhs.t;
             return *this;
             }
 
-- 
2.43.0


From 7f948d3d81e05fe006cc1052156ac831349b26f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 12/67] fix: EatWord no longer writes past the end of its
 buffer

---
 orocos_kdl/src/utilities/utility_io.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/utilities/utility_io.cxx b/orocos_kdl/src/utilities/utility_io.cxx
index eacf6cb..0725c19 100644
--- a/orocos_kdl/src/utilities/utility_io.cxx
+++ b/orocos_kdl/src/utilities/utility_io.cxx
@@ -190,11 +190,11 @@ void EatWord(std::istream& is,const char* delim,char* storage,int maxsize)
     size=0;
     int count = 0;
     while ((count==0)&&(strchr(delim,ch)==NULL)) {
-        *p = (char) toupper(ch);
-        ++p;
-        if (size==maxsize) {
+        if (size>=maxsize-1) {
            throw Error_BasicIO_ToBig();
         }
+        *p = (char) toupper(ch);
+        ++p;
         _check_istream(is);
         ++size;
         //ch = is.get();
-- 
2.43.0


From 456d0ed4de28581fdb7087af34c8b9ea8edb2bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 13/67] fix: a word that ends the input is read

---
 orocos_kdl/src/utilities/utility_io.cxx | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/utilities/utility_io.cxx b/orocos_kdl/src/utilities/utility_io.cxx
index 0725c19..7290038 100644
--- a/orocos_kdl/src/utilities/utility_io.cxx
+++ b/orocos_kdl/src/utilities/utility_io.cxx
@@ -189,19 +189,26 @@ void EatWord(std::istream& is,const char* delim,char* storage,int maxsize)
     p = storage;
     size=0;
     int count = 0;
-    while ((count==0)&&(strchr(delim,ch)==NULL)) {
+    while ((count==0)&&(ch!=EOF)&&(strchr(delim,ch)==NULL)) {
         if (size>=maxsize-1) {
            throw Error_BasicIO_ToBig();
         }
         *p = (char) toupper(ch);
         ++p;
-        _check_istream(is);
         ++size;
         //ch = is.get();
         ch =_EatSpace(is,&count);
     }
     *p=0;
-    is.putback(ch);
+    if (ch==EOF) {
+        if (size==0) {
+            throw Error_BasicIO_File();
+        }
+        // the end of the stream ends the word, only the next read fails.
+        is.clear(is.rdstate() & ~std::ios::failbit);
+    } else {
+        is.putback(ch);
+    }
 }
 
 
-- 
2.43.0


From 9653e4726bdae632fda636a3adaa487c63dbdad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:07 +0000
Subject: [PATCH 14/67] fix: a comment directly after a comment is skipped

---
 orocos_kdl/src/utilities/utility_io.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/utilities/utility_io.cxx b/orocos_kdl/src/utilities/utility_io.cxx
index 7290038..446100e 100644
--- a/orocos_kdl/src/utilities/utility_io.cxx
+++ b/orocos_kdl/src/utilities/utility_io.cxx
@@ -67,8 +67,8 @@ namespace KDL {
         }
     } while (true);
     if (countp!=NULL) *countp = count;
-    ch = is.get();
-    return ch;
+    // a comment counts as a space
+    return ' ';
 }
 
 // Eats space-like characters and comments
-- 
2.43.0


From be1e32cf8b24c86427b0450e7ecdef67414ce559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 15/67] fix: reading a Rotation2 stores the rotation

---
 orocos_kdl/src/frames_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames_io.cpp b/orocos_kdl/src/frames_io.cpp
index 0af50bb..e5daa4a 100644
--- a/orocos_kdl/src/frames_io.cpp
+++ b/orocos_kdl/src/frames_io.cpp
@@ -294,7 +294,7 @@ std::istream& operator >> (std::istream& is,Rotation2& r)
     Eat(is,'[');
     double val;
     is >> val;
-    r.Rot(val*deg2rad);
+    r = Rotation2::Rot(val*deg2rad);
     EatEnd(is,']');
     IOTracePop();
     return is;
-- 
2.43.0


From db2a10e7668db0c57ff1dedad5158542d90e7892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 16/67] fix: IOTracePop on an empty trace does nothing

---
 orocos_kdl/src/utilities/error_stack.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/utilities/error_stack.cxx b/orocos_kdl/src/utilities/error_stack.cxx
index c4837e6..a97cc4b 100644
--- a/orocos_kdl/src/utilities/error_stack.cxx
+++ b/orocos_kdl/src/utilities/error_stack.cxx
@@ -36,7 +36,8 @@ void IOTrace(const std::string& description) {
 
 
 void IOTracePop() {
-    errorstack.pop();
+    if (!errorstack.empty())
+        errorstack.pop();
 }
 
 void IOTraceOutput(std::ostream& os) {
-- 
2.43.0


From 10e73ddfe6ebc5e78fcd9290b1ae408eb3e3fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:21 +0000
Subject: [PATCH 17/67] fix: Chain::addSegment accepts a segment of the chain
 itself

---
 orocos_kdl/src/chain.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chain.cpp b/orocos_kdl/src/chain.cpp
index 43eb4f1..cee105b 100644
--- a/orocos_kdl/src/chain.cpp
+++ b/orocos_kdl/src/chain.cpp
@@ -54,7 +54,8 @@ namespace KDL {
     {
         segments.push_back(segment);
         nrOfSegments++;
-        if(segment.getJoint().getType()!=Joint::Fixed)
+        // the argument may have been an element of this chain, that moved
+        if(segments.back().getJoint().getType()!=Joint::Fixed)
             nrOfJoints++;
     }
 
-- 
2.43.0


From aac670808cf877d6000cb7faa39b4d4352c89391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 18/67] fix: Chain::addChain of a chain to itself ends

---
 orocos_kdl/src/chain.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chain.cpp b/orocos_kdl/src/chain.cpp
index cee105b..25c827d 100644
--- a/orocos_kdl/src/chain.cpp
+++ b/orocos_kdl/src/chain.cpp
@@ -61,7 +61,9 @@ namespace KDL {
 
     void Chain::addChain(const Chain& chain)
     {
-        for(unsigned int i=0;i<chain.getNrOfSegments();i++)
+        // the number is taken first, chain may be this chain
+        const unsigned int nr = chain.getNrOfSegments();
+        for(unsigned int i=0;i<nr;i++)
             this->addSegment(chain.getSegment(i));
     }
 
-- 
2.43.0


From eef457ac930a3b07f43d5513a1f05437b37e8e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 19/67] fix: self-assignment of a Chain keeps its segments

---
 orocos_kdl/src/chain.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_kdl/src/chain.cpp b/orocos_kdl/src/chain.cpp
index 25c827d..24e2c13 100644
--- a/orocos_kdl/src/chain.cpp
+++ b/orocos_kdl/src/chain.cpp
@@ -41,6 +41,8 @@ namespace KDL {
 
     Chain& Chain::operator=(const Chain& arg)
     {
+        if (this == &arg)
+            return *this;
         nrOfJoints=0;
         nrOfSegments=0;
         segments.resize(0);
-- 
2.43.0


From 967677c6f0b8287bc6f1f019a96aa32c224e2ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 20/67] fix: self-assignment of a Tree keeps its segments

---
 orocos_kdl/src/tree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 70151e6..98983ff 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -41,6 +41,8 @@ Tree::Tree(const Tree& in) {
 }
 
 Tree& Tree::operator=(const Tree& in) {
+    if (this == &in)
+        return *this;
     segments.clear();
     nrOfSegments = 0;
     nrOfJoints = 0;
-- 
2.43.0


From 7c7f9ebd16e7f25056431027c9382a7dfa774cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 21/67] fix: copies of a Tree keep the joint numbers of the
 original

---
 orocos_kdl/src/tree.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 98983ff..7861bc3 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -24,6 +24,13 @@
 
 namespace KDL {
 
+// gives the elements of a copied tree the joint numbers of the original,
+// which reflect the order in which the segments were added.
+static void copyJointNumbers(const SegmentMap& from, SegmentMap& to) {
+    for (SegmentMap::iterator it = to.begin(); it != to.end(); ++it)
+        GetTreeElementQNr(it->second) = GetTreeElementQNr(from.find(it->first)->second);
+}
+
 Tree::Tree(const std::string& _root_name) :
         nrOfJoints(0), nrOfSegments(0), root_name(_root_name)
 {
@@ -38,6 +45,7 @@ Tree::Tree(const Tree& in) {
 
     segments.insert(make_pair(root_name, TreeElement::Root(root_name)));
     addTree(in, root_name);
+    copyJointNumbers(in.segments, segments);
 }
 
 Tree& Tree::operator=(const Tree& in) {
@@ -50,6 +58,7 @@ Tree& Tree::operator=(const Tree& in) {
 
     segments.insert(make_pair(in.root_name, TreeElement::Root(root_name)));
     this->addTree(in, root_name);
+    copyJointNumbers(in.segments, segments);
     return *this;
 }
 
-- 
2.43.0


From dde273e2eeb07779978055ee9ff95e0a3fcb49e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 22/67] fix: Tree::getChain keeps scale and dynamics of
 reversed joints

---
 orocos_kdl/src/tree.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 7861bc3..6e9daf0 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -159,9 +159,11 @@ bool Tree::getChain(const std::string& chain_root, const std::string& chain_tip,
         Frame f_tip = seg.pose(0.0).Inverse();
         Joint jnt = seg.getJoint();
         if (jnt.getType() == Joint::RotX || jnt.getType() == Joint::RotY || jnt.getType() == Joint::RotZ || jnt.getType() == Joint::RotAxis)
-            jnt = Joint(jnt.getName(), f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::RotAxis);
+            jnt = Joint(jnt.getName(), f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::RotAxis,
+                        jnt.getScale(), jnt.getOffset(), jnt.getInertia(), jnt.getDamping(), jnt.getStiffness());
         else if (jnt.getType() == Joint::TransX || jnt.getType() == Joint::TransY || jnt.getType() == Joint::TransZ || jnt.getType() == Joint::TransAxis)
-            jnt = Joint(jnt.getName(),f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::TransAxis);
+            jnt = Joint(jnt.getName(),f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::TransAxis,
+                        jnt.getScale(), jnt.getOffset(), jnt.getInertia(), jnt.getDamping(), jnt.getStiffness());
         chain.addSegment(Segment(GetTreeElementSegment(getSegment(parents_chain_root[s+1])->second).getName(),
                                  jnt, f_tip, GetTreeElementSegment(getSegment(parents_chain_root[s+1])->second).getInertia()));
     }
-- 
2.43.0


From c1c31bc0c5f62c0457c8b67ba306c9e6604594d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 23/67] fix: ChainJntToJacDotSolver handles locked joints

---
 orocos_kdl/src/chainjnttojacdotsolver.cpp | 28 +++++++++++++++--------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/orocos_kdl/src/chainjnttojacdotsolver.cpp b/orocos_kdl/src/chainjnttojacdotsolver.cpp
index 9bb7e11..2260705 100644
--- a/orocos_kdl/src/chainjnttojacdotsolver.cpp
+++ b/orocos_kdl/src/chainjnttojacdotsolver.cpp
@@ -48,7 +48,6 @@ void ChainJntToJacDotSolver::updateInternalDataStructures() {
     this->setLockedJoints(locked_joints_);
     jac_solver_.updateInternalDataStructures();
     jac_.resize(chain.getNrOfJoints());
-    jac_dot_.resize(chain.getNrOfJoints());
     fk_solver_.updateInternalDataStructures();
 }
 
@@ -58,7 +57,12 @@ int ChainJntToJacDotSolver::JntToJacDot(const JntArrayVel& q_in, Twist& jac_dot_
     if (error != E_NOERROR) {
         return error;
     }
-    MultiplyJacobian(jac_dot_,q_in.qdot,jac_dot_q_dot);
+    SetToZero(jac_dot_q_dot);
+    unsigned int c=0;
+    for(unsigned int j=0;j<locked_joints_.size();j++){
+        if(!locked_joints_[j])
+            jac_dot_q_dot += jac_dot_.getColumn(c++)*q_in.qdot(j);
+    }
     return (error = E_NOERROR);
 }
 
@@ -102,20 +106,25 @@ int ChainJntToJacDotSolver::JntToJacDot(const JntArrayVel& q_in, Jacobian& jdot,
     }
 
     // Let's compute Jdot in the corresponding representation
-    int k=0;
+    int k=0; // joint number
+    int c=0; // column number, locked joints have no column
     for(unsigned int i=0;i<segmentNr;++i)
     {
         //Only increase joint nr if the segment has a joint
         if(chain.getSegment(i).getJoint().getType()!=Joint::Fixed) {
 
-            for(unsigned int j=0;j<chain.getNrOfJoints();++j)
+            if(!locked_joints_[k])
             {
-                // Column J is the sum of all partial derivatives  ref (41)
-                if(!locked_joints_[j])
-                    jac_dot_k_ += getPartialDerivative(jac_,j,k,representation_) * q_in.qdot(j);
+                SetToZero(jac_dot_k_);
+                for(unsigned int j=0;j<chain.getNrOfJoints();++j)
+                {
+                    // Column J is the sum of all partial derivatives  ref (41)
+                    if(!locked_joints_[j])
+                        jac_dot_k_ += getPartialDerivative(jac_,j,k,representation_) * q_in.qdot(j);
+                }
+                jdot.setColumn(c++,jac_dot_k_);
             }
-            jdot.setColumn(k++,jac_dot_k_);
-            SetToZero(jac_dot_k_);
+            ++k;
         }
     }
 
@@ -234,6 +243,7 @@ int ChainJntToJacDotSolver::setLockedJoints(const std::vector<bool>& locked_join
         if(!locked_joints_[i])
             nr_of_unlocked_joints_++;
     }
+    jac_dot_.resize(nr_of_unlocked_joints_);
 
     return (error = E_NOERROR);
 }
-- 
2.43.0


From 962f0931ac5aaa3d9fd7151bd51e35e1273804be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:05 +0000
Subject: [PATCH 24/67] fix: svd_HH, svd_eigen_HH: compute the norm of the
 matrix as a number, not as a bool

---
 orocos_kdl/src/utilities/svd_HH.cpp       | 5 +++--
 orocos_kdl/src/utilities/svd_eigen_HH.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_HH.cpp b/orocos_kdl/src/utilities/svd_HH.cpp
index b82467c..9cefa0a 100644
--- a/orocos_kdl/src/utilities/svd_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_HH.cpp
@@ -66,7 +66,8 @@ namespace KDL
 
         int i(-1),its(-1),j(-1),jj(-1),k(-1),nm=0;
         int ppi(0);
-        bool flag,maxarg1,maxarg2;
+        bool flag;
+        double maxarg1(0),maxarg2(0);
         double anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
 
         for(i=0;i<rows;i++)
@@ -173,7 +174,7 @@ namespace KDL
                 flag=true;
                 for (ppi=k;ppi>=0;ppi--) {  /* Test for splitting. */
                     nm=ppi-1;             /* Note that tmp[1] is always zero. */
-                    if ((fabs(tmp(ppi))+anorm) == anorm) {
+                    if (ppi == 0 || (fabs(tmp(ppi))+anorm) == anorm) {
                         flag=false;
                         break;
                     }
diff --git a/orocos_kdl/src/utilities/svd_eigen_HH.cpp b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
index 7c7bd37..63d957e 100644
--- a/orocos_kdl/src/utilities/svd_eigen_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
@@ -34,7 +34,8 @@ namespace KDL{
 
         int i(-1),its(-1),j(-1),jj(-1),k(-1),nm=0;
         int ppi(0);
-        bool flag,maxarg1,maxarg2;
+        bool flag;
+        double maxarg1(0),maxarg2(0);
         double anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
 
         /* Householder reduction to bidiagonal form. */
@@ -140,7 +141,7 @@ namespace KDL{
                 flag=true;
                 for (ppi=k;ppi>=0;ppi--) {  /* Test for splitting. */
                     nm=ppi-1;             /* Note that tmp[1] is always zero. */
-                    if ((fabs(tmp(ppi))+anorm) == anorm) {
+                    if (ppi == 0 || (fabs(tmp(ppi))+anorm) == anorm) {
                         flag=false;
                         break;
                     }
-- 
2.43.0


From 60eea12a68a86287104832103cacef853c1e3df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:41 +0000
Subject: [PATCH 25/67] fix: svd_HH, svd_eigen_HH: report every singular value
 that did not converge

---
 orocos_kdl/src/utilities/svd_HH.cpp       | 6 ++++--
 orocos_kdl/src/utilities/svd_eigen_HH.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_HH.cpp b/orocos_kdl/src/utilities/svd_HH.cpp
index 9cefa0a..0177cfe 100644
--- a/orocos_kdl/src/utilities/svd_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_HH.cpp
@@ -66,7 +66,7 @@ namespace KDL
 
         int i(-1),its(-1),j(-1),jj(-1),k(-1),nm=0;
         int ppi(0);
-        bool flag;
+        bool flag,converged(true);
         double maxarg1(0),maxarg2(0);
         double anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
 
@@ -262,8 +262,10 @@ namespace KDL
                 tmp(k)=f;
                 w(k)=x;
             }
+            if (its > maxiter)
+                converged=false;
         }
-        if (its == maxiter)
+        if (!converged)
             return (-2);
         else
             return (0);
diff --git a/orocos_kdl/src/utilities/svd_eigen_HH.cpp b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
index 63d957e..f89695e 100644
--- a/orocos_kdl/src/utilities/svd_eigen_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
@@ -34,7 +34,7 @@ namespace KDL{
 
         int i(-1),its(-1),j(-1),jj(-1),k(-1),nm=0;
         int ppi(0);
-        bool flag;
+        bool flag,converged(true);
         double maxarg1(0),maxarg2(0);
         double anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
 
@@ -235,6 +235,8 @@ namespace KDL{
                 tmp(k)=f;
                 S(k)=x;
             }
+            if (its > maxiter)
+                converged=false;
         }
 
         //Sort eigen values:
@@ -261,7 +263,7 @@ namespace KDL{
             }
         }
         
-        if (its == maxiter) 
+        if (!converged) 
             return (-2);
         else 
             return (0);
-- 
2.43.0


From 70795659cafd8d583ccdc9fd1464982a0afb17c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:54 +0000
Subject: [PATCH 26/67] fix: svd_eigen_Macie: handle orthogonal, vanishing and
 badly scaled columns

---
 orocos_kdl/src/utilities/svd_eigen_Macie.cpp | 76 +++++++++++---------
 1 file changed, 42 insertions(+), 34 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_eigen_Macie.cpp b/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
index c0fce47..f40479c 100644
--- a/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
@@ -21,11 +21,20 @@
 
 #include "svd_eigen_Macie.hpp"
 
+#include <algorithm>
+#include <cmath>
+#include <limits>
+
 namespace KDL{
     int svd_eigen_Macie(const Eigen::MatrixXd& A,Eigen::MatrixXd& U,Eigen::VectorXd& S, Eigen::MatrixXd& V,
                         Eigen::MatrixXd& B, Eigen::VectorXd& tempi,
                         double threshold,bool toggle)
     {
+        using std::fabs;
+        using std::hypot;
+        using std::max;
+        using std::sqrt;
+        const double precision = static_cast<double>(A.rows())*std::numeric_limits<double>::epsilon();
         bool rotate = true;
         unsigned int sweeps=0;
         unsigned int rotations=0;
@@ -43,13 +52,14 @@ namespace KDL{
                         double qi =B.col(i).dot(B.col(i));
                         double qj = B.col(j).dot(B.col(j));
                         double q=qi-qj;
-                        double alpha = pow(p,2.0)/(qi*qj);
+                        double alpha = (p/qi)*(p/qj);
                         //if columns are orthogonal with precision
-                        //threshold, don't perform rotation and continue
-                        if(alpha<threshold)
+                        //threshold, or as orthogonal as rounding allows,
+                        //don't perform rotation and continue
+                        if(!(alpha>=threshold) || fabs(p)<=precision*max(qi,qj))
                             continue;
                         rotations++;
-                        double c = sqrt(4*pow(p,2.0)+pow(q,2.0));
+                        double c = hypot(2*p,q);
                         double cos,sin;
                         if(q>=0){
                             cos=sqrt((c+q)/(2*c));
@@ -75,22 +85,21 @@ namespace KDL{
                         rotate=true;
                     }
                 }
-                //Only calculate new U and S if there were any rotations
-                if(rotations!=0){
-                    for(unsigned int i=0;i<U.rows();i++) {
-                        if(i<B.cols()){
-                            double si=sqrt(B.col(i).dot(B.col(i)));
-                            if(si==0)
-                                U.col(i) = B.col(i);
-                            else
-                                U.col(i) = B.col(i)/si;
-                            S(i)=si;
-                        }
-                        else
-                            U.col(i) = 0*tempi;
-                    }
+                if(rotations!=0)
                     sweeps++;
+            }
+            //Calculate new U and S, also if no rotation was needed
+            for(unsigned int i=0;i<U.rows();i++) {
+                if(i<B.cols()){
+                    double si=sqrt(B.col(i).dot(B.col(i)));
+                    if(si==0)
+                        U.col(i) = B.col(i);
+                    else
+                        U.col(i) = B.col(i)/si;
+                    S(i)=si;
                 }
+                else
+                    U.col(i).setZero();
             }
             return sweeps;
         }else{
@@ -108,14 +117,14 @@ namespace KDL{
                         double qj = B.row(j).dot(B.row(j));
 
                         double q=qi-qj;
-                        double alpha = pow(p,2.0)/(qi*qj);
+                        double alpha = (p/qi)*(p/qj);
                         //if columns are orthogonal with precision
-                        //threshold, don't perform rotation and
-                        //continue
-                        if(alpha<threshold)
+                        //threshold, or as orthogonal as rounding allows,
+                        //don't perform rotation and continue
+                        if(!(alpha>=threshold) || fabs(p)<=precision*max(qi,qj))
                             continue;
                         rotations++;
-                        double c = sqrt(4*pow(p,2.0)+pow(q,2.0));
+                        double c = hypot(2*p,q);
                         double cos,sin;
                         if(q>=0){
                             cos=sqrt((c+q)/(2*c));
@@ -143,18 +152,17 @@ namespace KDL{
                     }
                 }
 
-                //Only calculate new U and S if there were any rotations
-                if(rotations!=0){
-                    for(unsigned int i=0;i<V.rows();i++) {
-                        double si=sqrt(B.row(i).dot(B.row(i)));
-                        if(si==0)
-                            V.col(i) = B.row(i);
-                        else
-                            V.col(i) = B.row(i)/si;
-                        S(i)=si;
-                    }
+                if(rotations!=0)
                     sweeps++;
-                }
+            }
+            //Calculate new V and S, also if no rotation was needed
+            for(unsigned int i=0;i<V.rows();i++) {
+                double si=sqrt(B.row(i).dot(B.row(i)));
+                if(si==0)
+                    V.col(i) = B.row(i);
+                else
+                    V.col(i) = B.row(i)/si;
+                S(i)=si;
             }
             return sweeps;
         }
-- 
2.43.0


From 759738ef6d03693fe2719d16179bc81215db62e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:50 +0000
Subject: [PATCH 27/67] fix: svd_HH, svd_eigen_HH: stop at the rounding error,
 not at an exact equality

---
 orocos_kdl/src/utilities/svd_HH.cpp       | 11 +++++++----
 orocos_kdl/src/utilities/svd_eigen_HH.cpp | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_HH.cpp b/orocos_kdl/src/utilities/svd_HH.cpp
index 0177cfe..5749a0c 100644
--- a/orocos_kdl/src/utilities/svd_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_HH.cpp
@@ -24,6 +24,8 @@
 
 #include "svd_HH.hpp"
 
+#include <limits>
+
 namespace KDL
 {
     inline double PYTHAG(double a,double b) {
@@ -168,17 +170,18 @@ namespace KDL
             ++U[i](i);
         }
 
-        /* Diagonalization of the bidiagonal form. */
+        /* Diagonalization of the bidiagonal form, up to the rounding error. */
+        const double negligible = std::numeric_limits<double>::epsilon()*anorm;
         for (k=cols-1;k>=0;k--) { /* Loop over singular values. */
             for (its=1;its<=maxiter;its++) {  /* Loop over allowed iterations. */
                 flag=true;
                 for (ppi=k;ppi>=0;ppi--) {  /* Test for splitting. */
                     nm=ppi-1;             /* Note that tmp[1] is always zero. */
-                    if (ppi == 0 || (fabs(tmp(ppi))+anorm) == anorm) {
+                    if (ppi == 0 || fabs(tmp(ppi)) <= negligible) {
                         flag=false;
                         break;
                     }
-                    if ((fabs(w(nm)+anorm) == anorm)) break;
+                    if (fabs(w(nm)) <= negligible) break;
                 }
                 if (flag) {
                     c=0.0;           /* Cancellation of tmp[l], if l>1: */
@@ -186,7 +189,7 @@ namespace KDL
                     for (i=ppi;i<=k;i++) {
                         f=s*tmp(i);
                         tmp(i)=c*tmp(i);
-                        if ((fabs(f)+anorm) == anorm) break;
+                        if (fabs(f) <= negligible) break;
                         g=w(i);
                         h=PYTHAG(f,g);
                         w(i)=h;
diff --git a/orocos_kdl/src/utilities/svd_eigen_HH.cpp b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
index f89695e..e11c03f 100644
--- a/orocos_kdl/src/utilities/svd_eigen_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
@@ -21,6 +21,8 @@
 
 #include "svd_eigen_HH.hpp"
 
+#include <limits>
+
 namespace KDL{
     
     int svd_eigen_HH(const Eigen::MatrixXd &A, Eigen::MatrixXd &U, Eigen::VectorXd &S, Eigen::MatrixXd &V, Eigen::VectorXd &tmp, int maxiter, double epsilon)
@@ -135,17 +137,18 @@ namespace KDL{
             ++U(i,i);
         }
         
-        /* Diagonalization of the bidiagonal form. */
+        /* Diagonalization of the bidiagonal form, up to the rounding error. */
+        const double negligible = std::numeric_limits<double>::epsilon()*anorm;
         for (k=cols-1;k>=0;k--) { /* Loop over singular values. */
             for (its=1;its<=maxiter;its++) {  /* Loop over allowed iterations. */
                 flag=true;
                 for (ppi=k;ppi>=0;ppi--) {  /* Test for splitting. */
                     nm=ppi-1;             /* Note that tmp[1] is always zero. */
-                    if (ppi == 0 || (fabs(tmp(ppi))+anorm) == anorm) {
+                    if (ppi == 0 || fabs(tmp(ppi)) <= negligible) {
                         flag=false;
                         break;
                     }
-                    if ((fabs(S(nm)+anorm) == anorm)) break;
+                    if (fabs(S(nm)) <= negligible) break;
                 }
                 if (flag) {
                     c=0.0;           /* Cancellation of tmp[l], if l>1: */
@@ -153,7 +156,7 @@ namespace KDL{
                     for (i=ppi;i<=k;i++) {
                         f=s*tmp(i);
                         tmp(i)=c*tmp(i);
-                        if ((fabs(f)+anorm) == anorm) break;
+                        if (fabs(f) <= negligible) break;
                         g=S(i);
                         h=PYTHAG(f,g);
                         S(i)=h;
-- 
2.43.0


From f54fd838d6c894f8a862da69f2c3517162b0358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:52 +0000
Subject: [PATCH 28/67] fix: pinv, wdls: report singular configurations of
 chains with less than six joints

---
 orocos_kdl/src/chainiksolvervel_pinv.cpp | 4 ++--
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv.cpp b/orocos_kdl/src/chainiksolvervel_pinv.cpp
index 4ecc0cc..1c02c69 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv.cpp
@@ -121,8 +121,8 @@ namespace KDL
         }
 
         // Note if the solution is singular, i.e. if number of near zero
-        // singular values is greater than the full rank of jac
-        if ( nrZeroSigmas > (jac.columns()-jac.rows()) ) {
+        // singular values is greater than the one of a jac of full rank
+        if ( nrZeroSigmas > (jac.columns()>jac.rows() ? jac.columns()-jac.rows() : 0) ) {
             return (error = E_CONVERGE_PINV_SINGULAR);   // converged but pinv singular
         } else {
             return (error = E_NOERROR);                 // have converged
diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index a2f37ae..f5b1feb 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -206,9 +206,9 @@ namespace KDL
         */
         qdot_out.data=tmp_js.lazyProduct(tmp);
 
-        // If number of near zero singular values is greater than the full rank
-        // of jac, then wdls is active
-        if ( nrZeroSigmas > (jac.columns()-jac.rows()) ) {
+        // If number of near zero singular values is greater than the one of a
+        // jac of full rank, then wdls is active
+        if ( nrZeroSigmas > (jac.columns()>jac.rows() ? jac.columns()-jac.rows() : 0) ) {
             return (error = E_CONVERGE_PINV_SINGULAR);  // converged but pinv singular
         } else {
             return (error = E_NOERROR);                 // have converged
-- 
2.43.0


From a7b8a9377834911ba31b9e78d6dd4b808ccbedce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:58 +0000
Subject: [PATCH 29/67] fix: wdls: do not read beyond U for chains with less
 than six joints

---
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index f5b1feb..bf5d2e8 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -21,6 +21,7 @@
 
 #include "chainiksolvervel_wdls.hpp"
 #include "utilities/svd_eigen_HH.hpp"
+#include <algorithm>
 
 namespace KDL
 {
@@ -151,7 +152,7 @@ namespace KDL
         }
 
         //Pre-multiply U and V by the task space and joint space weighting matrix respectively
-        tmp_ts = weight_ts.lazyProduct(U.topLeftCorner(6,6));
+        tmp_ts.leftCols(std::min(6u,nj)) = weight_ts.lazyProduct(U.leftCols(std::min(6u,nj)));
         tmp_js = weight_js.lazyProduct(V);
 
         // Minimum of six largest singular values of J is S(5) if number of joints >=6 and 0 for <6
-- 
2.43.0


From ba73244fd675bb7e5b9a587db824393d9144b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:04 +0000
Subject: [PATCH 30/67] fix: wdls: zero the inverse of a vanishing singular
 value without damping

---
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index bf5d2e8..1752937 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -180,12 +180,12 @@ namespace KDL
                 lambda_scaled = sqrt(1.0-(sigmaMin/eps)*(sigmaMin/eps))*lambda ;
             }
             if(fabs(S(i))<eps) {
-                if (i<6) {
+                if (i<6 && lambda_scaled != 0.0) {
                     // Scale lambda to size of singular value sigmaMin
                     tmp(i) = sum*((S(i)/(S(i)*S(i)+lambda_scaled*lambda_scaled)));
                 }
                 else {
-                    tmp(i)=0.0;  // S(i)=0 for i>=6 due to cols>rows
+                    tmp(i)=0.0;  // no damping, or S(i)=0 for i>=6 due to cols>rows
                 }
                 //  Count number of singular values near zero
                 ++nrZeroSigmas ;
-- 
2.43.0


From b416ba00694beb942c5b71330b73166eb3365f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:50 +0000
Subject: [PATCH 31/67] fix: pinv_nso: do not write beyond tmp for chains with
 less than six joints

---
 orocos_kdl/src/chainiksolvervel_pinv_nso.cpp | 6 ++++--
 orocos_kdl/src/chainiksolvervel_pinv_nso.hpp | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
index 1b04795..dc971f4 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
@@ -35,6 +35,7 @@ namespace KDL
         V(Eigen::MatrixXd::Zero(nj,nj)),
         tmp(Eigen::VectorXd::Zero(nj)),
         tmp2(Eigen::VectorXd::Zero(nj)),
+        v_in_eigen(Eigen::VectorXd::Zero(6)),
         eps(_eps),
         maxiter(_maxiter),
         svdResult(0),
@@ -55,6 +56,7 @@ namespace KDL
         V(Eigen::MatrixXd::Zero(nj,nj)),
         tmp(Eigen::VectorXd::Zero(nj)),
         tmp2(Eigen::VectorXd::Zero(nj)),
+        v_in_eigen(Eigen::VectorXd::Zero(6)),
         eps(_eps),
         maxiter(_maxiter),
         svdResult(0),
@@ -114,10 +116,10 @@ namespace KDL
             Sinv(i) = fabs(S(i))<eps ? 0.0 : 1.0/S(i);
         }
         for (i = 0; i < 6; ++i) {
-            tmp(i) = v_in(i);
+            v_in_eigen(i) = v_in(i);
         }
 
-        qdot_out.data = V * Sinv.asDiagonal() * U.transpose() * tmp.head(6);
+        qdot_out.data = V * Sinv.asDiagonal() * U.transpose() * v_in_eigen;
 
         // Now onto NULL space
         // Given the cost function g, and the current joints q, desired joints qd, and weights w:
diff --git a/orocos_kdl/src/chainiksolvervel_pinv_nso.hpp b/orocos_kdl/src/chainiksolvervel_pinv_nso.hpp
index 97cd570..fc9cf12 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_nso.hpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_nso.hpp
@@ -148,6 +148,7 @@ namespace KDL
         Eigen::MatrixXd V;
         Eigen::VectorXd tmp;
         Eigen::VectorXd tmp2;
+        Eigen::VectorXd v_in_eigen;
         double eps;
         int maxiter;
         int svdResult;
-- 
2.43.0


From 05a3cc841d13df0b5ed39132d398e982f4b9523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:56 +0000
Subject: [PATCH 32/67] fix: pinv_givens: always start from an orthonormal
 basis

---
 orocos_kdl/src/chainiksolvervel_pinv_givens.cpp | 13 +++++++------
 orocos_kdl/src/chainiksolvervel_pinv_givens.hpp |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp b/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
index fbf102b..417e1a5 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
@@ -29,7 +29,7 @@ namespace KDL
         nj(chain.getNrOfJoints()),
         jnt2jac(chain),
         jac(nj),
-        transpose(nj>6),toggle(true),
+        transpose(nj>6),
         m(static_cast<unsigned int>(max(6,nj))),
         n(static_cast<unsigned int>(min(6,nj))),
         jac_eigen(m,n),
@@ -53,8 +53,8 @@ namespace KDL
         m = static_cast<unsigned int>(max(6,nj));
         n = static_cast<unsigned int>(min(6,nj));
         jac_eigen.conservativeResize(m,n);
-        U.conservativeResizeLike(Eigen::MatrixXd::Identity(m,m));
-        V.conservativeResizeLike(Eigen::MatrixXd::Identity(n,n));
+        U.setIdentity(m,m);
+        V.setIdentity(n,n);
         B.conservativeResize(m,n);
         S.conservativeResize(n);
         tempi.conservativeResize(m);
@@ -75,8 +75,6 @@ namespace KDL
         if (nj != q_in.rows() || nj != qdot_out.rows())
             return (error = E_SIZE_MISMATCH);
 
-        toggle=!toggle;
-
         error = jnt2jac.JntToJac(q_in,jac);
         if (E_NOERROR > error )
             return error;
@@ -91,7 +89,10 @@ namespace KDL
                 else
                     jac_eigen(i,j)=jac(i,j);
         }
-        svd_eigen_Macie(jac_eigen,U,S,V,B,tempi,1e-15,toggle);
+        //Start from the V of the previous call: it always stays orthonormal,
+        //while U does not span the whole space if jac_eigen is not square or
+        //if the previous configuration was singular
+        svd_eigen_Macie(jac_eigen,U,S,V,B,tempi,1e-15,true);
 
         if(transpose)
             UY.noalias() = V.transpose() * v_in_eigen;
diff --git a/orocos_kdl/src/chainiksolvervel_pinv_givens.hpp b/orocos_kdl/src/chainiksolvervel_pinv_givens.hpp
index 8fdf159..8d00861 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_givens.hpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_givens.hpp
@@ -48,7 +48,7 @@ namespace KDL
         unsigned int nj;
         ChainJntToJacSolver jnt2jac;
         Jacobian jac;
-        bool transpose,toggle;
+        bool transpose;
         unsigned int m,n;
         Eigen::MatrixXd jac_eigen,U,V,B;
         Eigen::VectorXd S,tempi,UY,SUY,qdot_eigen,v_in_eigen;
-- 
2.43.0


From 2518eccd80d16319a91407fed1464d77444c4d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:41 +0000
Subject: [PATCH 33/67] fix: ChainIkSolverPos_LMA: make the read-outs belong to
 the call

---
 orocos_kdl/src/chainiksolverpos_lma.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/chainiksolverpos_lma.cpp b/orocos_kdl/src/chainiksolverpos_lma.cpp
index 71d2ab5..0728532 100644
--- a/orocos_kdl/src/chainiksolverpos_lma.cpp
+++ b/orocos_kdl/src/chainiksolverpos_lma.cpp
@@ -207,10 +207,12 @@ int ChainIkSolverPos_LMA::CartToJnt(const KDL::JntArray& q_init, const KDL::Fram
 	Twist_to_Eigen( diff( T_base_head, T_base_goal), delta_pos );
 	delta_pos=L.asDiagonal()*delta_pos;
 	delta_pos_norm = delta_pos.norm();
+	compute_jacobian(q);
+	jac = L.asDiagonal()*jac;
 	if (delta_pos_norm<eps) {
 		lastNrOfIter    =0 ;
 		Twist_to_Eigen( diff( T_base_head, T_base_goal), delta_pos );
-		lastDifference  = delta_pos.norm();
+		lastDifference  = delta_pos_norm;
 		lastTransDiff   = delta_pos.topRows(3).norm();
 		lastRotDiff     = delta_pos.bottomRows(3).norm();
 		svd.compute(jac);
@@ -219,8 +221,6 @@ int ChainIkSolverPos_LMA::CartToJnt(const KDL::JntArray& q_init, const KDL::Fram
 		q_out.data      = q.cast<double>();
 		return (error = E_NOERROR);
 	}
-	compute_jacobian(q);
-	jac = L.asDiagonal()*jac;
 
 	lambda = tau;
 	double dnorm = 1;
@@ -304,6 +304,9 @@ int ChainIkSolverPos_LMA::CartToJnt(const KDL::JntArray& q_init, const KDL::Fram
 			v      = 2*v;
 		}
 	}
+	compute_fwdpos(q);
+	Twist_to_Eigen( diff( T_base_head, T_base_goal), delta_pos );
+	svd.compute(jac);
 	lastDifference = delta_pos_norm;
 	lastTransDiff  = delta_pos.topRows(3).norm();
 	lastRotDiff    = delta_pos.bottomRows(3).norm();
-- 
2.43.0


From dc882678f5fac52f6d5f5297edc423bb6503ad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:39 +0000
Subject: [PATCH 34/67] fix: ChainIkSolverPos_NR: do not step away from the
 solution found

---
 orocos_kdl/src/chainiksolverpos_nr.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolverpos_nr.cpp b/orocos_kdl/src/chainiksolverpos_nr.cpp
index 79747bf..1e265d2 100644
--- a/orocos_kdl/src/chainiksolverpos_nr.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr.cpp
@@ -59,10 +59,11 @@ namespace KDL
                 return (error = E_IKSOLVER_FAILED);
             // we chose to continue if the child solver returned a positive
             // "error", which may simply indicate a degraded solution
-            Add(q_out,delta_q,q_out);
             if(Equal(delta_twist,Twist::Zero(),eps))
                 // converged, but possibly with a degraded solution
-                return (rc > E_NOERROR ? E_DEGRADED : E_NOERROR);
+                // a further step could leave the solution near a singularity
+                return (error = (rc > E_NOERROR ? E_DEGRADED : E_NOERROR));
+            Add(q_out,delta_q,q_out);
         }
         return (error = E_MAX_ITERATIONS_EXCEEDED);        // failed to converge
     }
-- 
2.43.0


From 3f359571353ce0f4460ee04dad50b8e7e5515ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:00 +0000
Subject: [PATCH 35/67] fix: ChainIkSolverPos_NR_JL: no lower limits by default

---
 orocos_kdl/src/chainiksolverpos_nr_jl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
index bb30c45..95166ce 100644
--- a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
@@ -46,13 +46,13 @@ namespace KDL
          delta_q(nj),
          maxiter(_maxiter),eps(_eps)
     {
-        q_min.data.setConstant(std::numeric_limits<double>::min());
+        q_min.data.setConstant(-std::numeric_limits<double>::max());
         q_max.data.setConstant(std::numeric_limits<double>::max());
     }
 
     void ChainIkSolverPos_NR_JL::updateInternalDataStructures() {
        nj = chain.getNrOfJoints();
-       q_min.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,std::numeric_limits<double>::min()));
+       q_min.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,-std::numeric_limits<double>::max()));
        q_max.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,std::numeric_limits<double>::max()));
        iksolver.updateInternalDataStructures();
        fksolver.updateInternalDataStructures();
-- 
2.43.0


From 4dc5c97cec6bc9b3dee76259806a26533c807c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:40 +0000
Subject: [PATCH 36/67] fix: ChainIkSolverPos_NR_JL: start within the joint
 limits

---
 orocos_kdl/src/chainiksolverpos_nr_jl.cpp | 26 +++++++++++++----------
 orocos_kdl/src/chainiksolverpos_nr_jl.hpp |  2 ++
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
index 95166ce..c7ac63f 100644
--- a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
@@ -68,6 +68,7 @@ namespace KDL
             return (error = E_SIZE_MISMATCH);
 
         q_out = q_init;
+        limit(q_out);
 
         unsigned int i;
         for(i=0;i<maxiter;i++){
@@ -81,17 +82,7 @@ namespace KDL
             if ( iksolver.CartToJnt(q_out,delta_twist,delta_q) < 0)
                 return (error = E_IKSOLVERVEL_FAILED);
             Add(q_out,delta_q,q_out);
-
-            for(unsigned int j=0; j<q_min.rows(); j++) {
-                if(q_out(j) < q_min(j))
-                q_out(j) = q_min(j);
-            }
-
-
-            for(unsigned int j=0; j<q_max.rows(); j++) {
-                if(q_out(j) > q_max(j))
-                    q_out(j) = q_max(j);
-            }
+            limit(q_out);
         }
 
         if(i!=maxiter)
@@ -100,6 +91,19 @@ namespace KDL
             return (error = E_MAX_ITERATIONS_EXCEEDED);
     }
 
+    void ChainIkSolverPos_NR_JL::limit(JntArray& q) const
+    {
+        for(unsigned int j=0; j<q_min.rows(); j++) {
+            if(q(j) < q_min(j))
+                q(j) = q_min(j);
+        }
+
+        for(unsigned int j=0; j<q_max.rows(); j++) {
+            if(q(j) > q_max(j))
+                q(j) = q_max(j);
+        }
+    }
+
     int ChainIkSolverPos_NR_JL::setJointLimits(const JntArray& q_min_in, const JntArray& q_max_in) {
         if (q_min_in.rows() != nj || q_max_in.rows() != nj)
             return (error = E_SIZE_MISMATCH);
diff --git a/orocos_kdl/src/chainiksolverpos_nr_jl.hpp b/orocos_kdl/src/chainiksolverpos_nr_jl.hpp
index b3c6fed..935a0e8 100644
--- a/orocos_kdl/src/chainiksolverpos_nr_jl.hpp
+++ b/orocos_kdl/src/chainiksolverpos_nr_jl.hpp
@@ -122,6 +122,8 @@ namespace KDL {
         Frame f;
         Twist delta_twist;
 
+        // moves the joint values into the limits
+        void limit(JntArray& q) const;
     };
 
 }
-- 
2.43.0


From 74bbbcb90e6f718b0f1b5299b5919baa20ee4ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:04 +0000
Subject: [PATCH 37/67] fix: tree kinematics do not read the joint array for
 fixed segments

---
 orocos_kdl/src/treefksolverpos_recursive.cpp | 4 +++-
 orocos_kdl/src/treejnttojacsolver.cpp        | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/treefksolverpos_recursive.cpp b/orocos_kdl/src/treefksolverpos_recursive.cpp
index b919b95..0646a92 100644
--- a/orocos_kdl/src/treefksolverpos_recursive.cpp
+++ b/orocos_kdl/src/treefksolverpos_recursive.cpp
@@ -49,7 +49,9 @@ namespace KDL {
 	{
 		//gets the frame for the current element (segment)
         const TreeElementType& currentElement = it->second;
-        Frame currentFrame = GetTreeElementSegment(currentElement).pose(q_in(GetTreeElementQNr(currentElement)));
+        //a fixed joint has no entry in q_in
+        const Segment& segment = GetTreeElementSegment(currentElement);
+        Frame currentFrame = segment.pose(segment.getJoint().getType() != Joint::Fixed ? q_in(GetTreeElementQNr(currentElement)) : 0.0);
 
 		SegmentMap::const_iterator rootIterator = tree.getRootSegment();
 		if(it == rootIterator){
diff --git a/orocos_kdl/src/treejnttojacsolver.cpp b/orocos_kdl/src/treejnttojacsolver.cpp
index 0afb4d1..64fce75 100644
--- a/orocos_kdl/src/treejnttojacsolver.cpp
+++ b/orocos_kdl/src/treejnttojacsolver.cpp
@@ -41,8 +41,9 @@ int TreeJntToJacSolver::JntToJac(const JntArray& q_in, Jacobian& jac, const std:
         //get the corresponding q_nr for this TreeElement:
         unsigned int q_nr = GetTreeElementQNr(it->second);
         
-        //get the pose of the segment:
-        Frame T_local = GetTreeElementSegment(it->second).pose(q_in(q_nr));
+        //get the pose of the segment, a fixed joint has no entry in q_in:
+        Frame T_local = GetTreeElementSegment(it->second).pose(
+            GetTreeElementSegment(it->second).getJoint().getType() != Joint::Fixed ? q_in(q_nr) : 0.0);
         //calculate new T_end:
         T_total = T_local * T_total;
         
-- 
2.43.0


From 3b292637b8461cda1cc244accc03a1fb8a1f1386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:29 +0000
Subject: [PATCH 38/67] fix: TreeIkSolverPos_Online: scale the twist by its
 biggest overshoot

---
 orocos_kdl/src/treeiksolverpos_online.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/orocos_kdl/src/treeiksolverpos_online.cpp b/orocos_kdl/src/treeiksolverpos_online.cpp
index 594c3a0..85e3554 100644
--- a/orocos_kdl/src/treeiksolverpos_online.cpp
+++ b/orocos_kdl/src/treeiksolverpos_online.cpp
@@ -153,18 +153,17 @@ void TreeIkSolverPos_Online::enforceCartVelLimits()
   x_dot_trans = sqrt( pow(twist_.vel.x(), 2) + pow(twist_.vel.y(), 2) + pow(twist_.vel.z(), 2));
   x_dot_rot = sqrt( pow(twist_.rot.x(), 2) + pow(twist_.rot.y(), 2) + pow(twist_.rot.z(), 2));
 
-  if ( x_dot_trans > x_dot_trans_max_ || x_dot_rot > x_dot_rot_max_ )
+  // the scale that removes the biggest relative overshoot
+  double scale = 1.0;
+  if ( x_dot_trans > x_dot_trans_max_ )
+    scale = x_dot_trans_max_ / x_dot_trans;
+  if ( x_dot_rot > x_dot_rot_max_ && x_dot_rot_max_ / x_dot_rot < scale )
+    scale = x_dot_rot_max_ / x_dot_rot;
+
+  if ( scale < 1.0 )
   {
-    if ( x_dot_trans > x_dot_rot )
-    {
-      twist_.vel = twist_.vel * ( x_dot_trans_max_ / x_dot_trans );
-      twist_.rot = twist_.rot * ( x_dot_trans_max_ / x_dot_trans );
-    }
-    else if ( x_dot_rot > x_dot_trans )
-    {
-      twist_.vel = twist_.vel * ( x_dot_rot_max_ / x_dot_rot );
-      twist_.rot = twist_.rot * ( x_dot_rot_max_ / x_dot_rot );
-    }
+    twist_.vel = twist_.vel * scale;
+    twist_.rot = twist_.rot * scale;
   }
 }
 
-- 
2.43.0


From 68681342f5f02deb1e2601d19a1ca77b8cbe2504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:37 +0000
Subject: [PATCH 39/67] fix: TreeIkSolverVel_wdls: refuse missing endpoints and
 wrong sizes

---
 orocos_kdl/src/treeiksolvervel_wdls.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/treeiksolvervel_wdls.cpp b/orocos_kdl/src/treeiksolvervel_wdls.cpp
index 87665db..f5343c3 100644
--- a/orocos_kdl/src/treeiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/treeiksolvervel_wdls.cpp
@@ -53,7 +53,14 @@ namespace KDL {
                 return -2;
         }
         //Check if q_in has the right size
-        if (q_in.rows() != tree.getNrOfJoints())
+        //every endpoint needs its twist
+        for (Jacobians::const_iterator jac_it = jacobians.begin(); jac_it != jacobians.end(); ++jac_it) {
+            if (v_in.find(jac_it->first) == v_in.end())
+                return -2;
+        }
+        if (q_in.rows() != tree.getNrOfJoints() || qdot_out.rows() != tree.getNrOfJoints())
+            return -1;
+        if (Wq.rows() != J.cols() || Wq.cols() != J.cols() || Wy.rows() != J.rows() || Wy.cols() != J.rows())
             return -1;
         
         //Lets get all the jacobians we need:
-- 
2.43.0


From 2773314a8e1e2f4589e7c1250b3607bcb0751584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:43 +0000
Subject: [PATCH 40/67] fix: TreeIkSolverVel_wdls: no NaN for vanishing
 singular values without damping

---
 orocos_kdl/src/treeiksolvervel_wdls.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/treeiksolvervel_wdls.cpp b/orocos_kdl/src/treeiksolvervel_wdls.cpp
index f5343c3..82d904f 100644
--- a/orocos_kdl/src/treeiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/treeiksolvervel_wdls.cpp
@@ -7,6 +7,8 @@
 
 #include "treeiksolvervel_wdls.hpp"
 #include "utilities/svd_eigen_HH.hpp"
+#include <algorithm>
+#include <limits>
 
 namespace KDL {    
     TreeIkSolverVel_wdls::TreeIkSolverVel_wdls(const Tree& tree_in, const std::vector<std::string>& endpoints) :
@@ -94,6 +96,8 @@ namespace KDL {
         Wq_V.noalias() = Wq * V;
         
         // tmp = (Si*Wy*U'*y),
+        const double S_min = S.size() == 0 ? 0.0 :
+            S.maxCoeff() * std::max(J.rows(), J.cols()) * std::numeric_limits<double>::epsilon();
         for (unsigned int i = 0; i < J.cols(); i++) {
             double sum = 0.0;
             for (unsigned int j = 0; j < J.rows(); j++) {
@@ -102,7 +106,11 @@ namespace KDL {
                 else
                     sum += 0.0;
             }
-            tmp( i) = sum * ((S(i) / (S(i) * S(i) + lambda * lambda)));
+            //a singular value that vanishes up to the rounding error contributes nothing
+            if (S(i) > S_min)
+                tmp( i) = sum * ((S(i) / (S(i) * S(i) + lambda * lambda)));
+            else
+                tmp( i) = 0.0;
         }
         
         // x = Lx^-1*V*tmp + x
-- 
2.43.0


From 6408510d580f59b9e26cffa87bca3ada5dfc0b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:14 +0000
Subject: [PATCH 41/67] fix: TreeIkSolverPos_NR_JL, TreeIkSolverPos_Online:
 check sizes first, forget earlier targets, start within limits

---
 orocos_kdl/src/treeiksolverpos_nr_jl.cpp  | 21 +++++++++++++++++++--
 orocos_kdl/src/treeiksolverpos_online.cpp | 14 ++++++++++----
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
index 2b0b1a3..1d8b285 100644
--- a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
@@ -46,7 +46,22 @@ namespace KDL {
         for(Frames::const_iterator f_des_it=p_in.begin();f_des_it!=p_in.end();++f_des_it)
             if(frames.find(f_des_it->first)==frames.end())
                 return -2;
-        
+
+        if (q_init.rows() != tree.getNrOfJoints() || q_min.rows() != q_init.rows() || q_max.rows() != q_init.rows())
+            return -1;
+
+        //endpoints that are not given stay where they are, whatever was asked of them before
+        for (Twists::iterator it = delta_twists.begin(); it != delta_twists.end(); ++it)
+            it->second = Twist::Zero();
+
+        //start within the limits
+        for (unsigned int j = 0; j < q_min.rows(); j++) {
+            if (q_out(j) < q_min(j))
+                q_out( j) = q_min(j);
+            else if (q_out(j) > q_max(j))
+                q_out( j) = q_max(j);
+        }
+
         unsigned int k=0;
         while(++k <= maxiter) {
             for (Frames::const_iterator f_des_it=p_in.begin();f_des_it!=p_in.end();++f_des_it){
@@ -54,7 +69,9 @@ namespace KDL {
                 Frames::iterator f_it = frames.find(f_des_it->first);
                 Twists::iterator delta_twist = delta_twists.find(f_des_it->first);
                 
-                fksolver.JntToCart(q_out, f_it->second, f_it->first);
+                int ret = fksolver.JntToCart(q_out, f_it->second, f_it->first);
+                if (ret < 0)
+                    return ret;
                 delta_twist->second = diff(f_it->second, f_des_it->second);
             }
             double res = iksolver.CartToJnt(q_out, delta_twists, delta_q);
diff --git a/orocos_kdl/src/treeiksolverpos_online.cpp b/orocos_kdl/src/treeiksolverpos_online.cpp
index 85e3554..f01fc14 100644
--- a/orocos_kdl/src/treeiksolverpos_online.cpp
+++ b/orocos_kdl/src/treeiksolverpos_online.cpp
@@ -66,13 +66,22 @@ double TreeIkSolverPos_Online::CartToJnt(const JntArray& q_in, const Frames& p_i
     if(frames_.find(f_des_it->first)==frames_.end())
       return -2;
 
+  if(q_out.rows()!=q_dot_.rows() || q_out.rows()!=q_min_.rows() || q_out.rows()!=q_max_.rows() || q_out.rows()!= q_dot_max_.rows())
+      return -1;
+
+  // endpoints that are not given stay where they are, whatever was asked of them before
+  for (Twists::iterator it=delta_twists_.begin();it!=delta_twists_.end();++it)
+    it->second = Twist::Zero();
+
   for (Frames::const_iterator f_des_it=p_in.begin();f_des_it!=p_in.end();++f_des_it)
   {
     // Get all iterators for this endpoint
     Frames::iterator f_it = frames_.find(f_des_it->first);
     Twists::iterator delta_twists_it = delta_twists_.find(f_des_it->first);
 
-    fksolver_.JntToCart(q_out, f_it->second, f_it->first);
+    int ret = fksolver_.JntToCart(q_out, f_it->second, f_it->first);
+    if(ret<0)
+        return ret;
     twist_ = diff(f_it->second, f_des_it->second);
 
     // Checks, if the twist (twist_) exceeds the maximum translational and/or rotational velocity
@@ -86,9 +95,6 @@ double TreeIkSolverPos_Online::CartToJnt(const JntArray& q_in, const Frames& p_i
 
   if(res<0)
       return res;
-  //If we got here q_out is definitely of the right size
-  if(q_out.rows()!=q_min_.rows() || q_out.rows()!=q_max_.rows() || q_out.rows()!= q_dot_max_.rows())
-      return -1;
 
   // Checks, if joint velocities (q_dot_) exceed their maximum and scales them, if necessary
   enforceJointVelLimits();
-- 
2.43.0


From 64ada9646d2fd0a56a3f7826f8a826bcac6700f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:36 +0000
Subject: [PATCH 42/67] fix: ChainFdSolver_RNE::RK4Integrator uses the
 Runge-Kutta weights for the positions

---
 orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
index 6e01c49..41947b3 100644
--- a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
+++ b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
@@ -109,16 +109,16 @@ namespace KDL{
         for (unsigned int i=0; i<nj; ++i)
         {
             q_temp(i) = q(i) + q_dot_temp(i)*dt/2.0;
-            q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt/2.0;
             dq(i) += 2.0*q_dot_temp(i);
+            q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt/2.0;
             dq_dot(i) += 2.0*q_dotdot(i);
         }
         fdsolver.CartToJnt(q_temp, q_dot_temp, torques, f_ext, q_dotdot);
         for (unsigned int i=0; i<nj; ++i)
         {
             q_temp(i) = q(i) + q_dot_temp(i)*dt;
-            q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt;
             dq(i) += 2.0*q_dot_temp(i);
+            q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt;
             dq_dot(i) += 2.0*q_dotdot(i);
         }
         fdsolver.CartToJnt(q_temp, q_dot_temp, torques, f_ext, q_dotdot);
-- 
2.43.0


From 600269042b67e883783b0e3bff96f864d56e3e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:38 +0000
Subject: [PATCH 43/67] fix: ChainExternalWrenchEstimator::setInitialMomentum
 restarts the inertia difference too

---
 orocos_kdl/src/chainexternalwrenchestimator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orocos_kdl/src/chainexternalwrenchestimator.cpp b/orocos_kdl/src/chainexternalwrenchestimator.cpp
index 8c9d752..53b641e 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.cpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.cpp
@@ -83,6 +83,9 @@ int ChainExternalWrenchEstimator::setInitialMomentum(const JntArray &joint_posit
 
     initial_jnt_momentum.data = jnt_mass_matrix.data * joint_velocity.data;
 
+    // The change of the inertia is measured from here on
+    previous_jnt_mass_matrix.data = jnt_mass_matrix.data;
+
     // Reset data because of the new momentum offset
     SetToZero(estimated_momentum_integral);
     SetToZero(filtered_estimated_ext_torque);
-- 
2.43.0


From 14a52f1f2524471c09bf7845a82b1dfb14acbec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:55 +0000
Subject: [PATCH 44/67] fix: ChainExternalWrenchEstimator: stale chains are
 reported by setInitialMomentum, updating works from an empty chain

---
 orocos_kdl/src/chainexternalwrenchestimator.cpp | 8 +++++---
 orocos_kdl/src/chainexternalwrenchestimator.hpp | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/chainexternalwrenchestimator.cpp b/orocos_kdl/src/chainexternalwrenchestimator.cpp
index 53b641e..840a06b 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.cpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.cpp
@@ -24,7 +24,7 @@ namespace KDL {
 
 ChainExternalWrenchEstimator::ChainExternalWrenchEstimator(const Chain &chain, const Vector &gravity, const double sample_frequency, const double estimation_gain, const double filter_constant, const double eps, const int maxiter) :
     CHAIN(chain),
-    DT_SEC(1.0 / sample_frequency), FILTER_CONST(filter_constant),
+    DT_SEC(1.0 / sample_frequency), FILTER_CONST(filter_constant), GAIN(estimation_gain),
     svd_eps(eps),
     svd_maxiter(maxiter),
     nj(CHAIN.getNrOfJoints()), ns(CHAIN.getNrOfSegments()),
@@ -35,7 +35,7 @@ ChainExternalWrenchEstimator::ChainExternalWrenchEstimator(const Chain &chain, c
     jacobian_end_eff_transpose(Eigen::MatrixXd::Zero(nj, 6)), jacobian_end_eff_transpose_inv(Eigen::MatrixXd::Zero(6, nj)),
     U(Eigen::MatrixXd::Zero(nj, 6)), V(Eigen::MatrixXd::Zero(6, 6)),
     S(Eigen::VectorXd::Zero(6)), S_inv(Eigen::VectorXd::Zero(6)), tmp(Eigen::VectorXd::Zero(6)),
-    ESTIMATION_GAIN(Eigen::VectorXd::Constant(nj, estimation_gain)),
+    ESTIMATION_GAIN(Eigen::VectorXd::Constant(nj, GAIN)),
     dynparam_solver(CHAIN, gravity),
     jacobian_solver(CHAIN),
     fk_pos_solver(CHAIN)
@@ -64,7 +64,7 @@ void ChainExternalWrenchEstimator::updateInternalDataStructures()
     S.conservativeResizeLike(Eigen::VectorXd::Zero(6));
     S_inv.conservativeResizeLike(Eigen::VectorXd::Zero(6));
     tmp.conservativeResizeLike(Eigen::VectorXd::Zero(6));
-    ESTIMATION_GAIN.conservativeResizeLike(Eigen::VectorXd::Constant(nj, ESTIMATION_GAIN(0)));
+    ESTIMATION_GAIN.conservativeResizeLike(Eigen::VectorXd::Constant(nj, GAIN));
     dynparam_solver.updateInternalDataStructures();
     jacobian_solver.updateInternalDataStructures();
     fk_pos_solver.updateInternalDataStructures();
@@ -74,6 +74,8 @@ void ChainExternalWrenchEstimator::updateInternalDataStructures()
 int ChainExternalWrenchEstimator::setInitialMomentum(const JntArray &joint_position, const JntArray &joint_velocity)
 {
     // Check sizes first
+    if (nj != CHAIN.getNrOfJoints() || ns != CHAIN.getNrOfSegments())
+        return (error = E_NOT_UP_TO_DATE);
     if (joint_position.rows() != nj || joint_velocity.rows() != nj)
         return (error = E_SIZE_MISMATCH);
 
diff --git a/orocos_kdl/src/chainexternalwrenchestimator.hpp b/orocos_kdl/src/chainexternalwrenchestimator.hpp
index 3147a5d..f1a9c64 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.hpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.hpp
@@ -109,7 +109,7 @@ namespace KDL {
 
     private:
         const Chain &CHAIN;
-        const double DT_SEC, FILTER_CONST;
+        const double DT_SEC, FILTER_CONST, GAIN;
         double svd_eps;
         int svd_maxiter;
         unsigned int nj, ns;
-- 
2.43.0


From 57622f69e75e6c483088a07e4f58b4d1b8b06e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:45 +0000
Subject: [PATCH 45/67] fix: define the declared sums of articulated and rigid
 body inertias

---
 orocos_kdl/src/articulatedbodyinertia.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/orocos_kdl/src/articulatedbodyinertia.cpp b/orocos_kdl/src/articulatedbodyinertia.cpp
index 709096d..733ec7d 100644
--- a/orocos_kdl/src/articulatedbodyinertia.cpp
+++ b/orocos_kdl/src/articulatedbodyinertia.cpp
@@ -54,6 +54,10 @@ namespace KDL{
         return ArticulatedBodyInertia(Ia.M+Ib.M,Ia.H+Ib.H,Ia.I+Ib.I);
     }
 
+    ArticulatedBodyInertia operator+(const ArticulatedBodyInertia& Ia, const RigidBodyInertia& Ib){
+        return Ia+ArticulatedBodyInertia(Ib);
+    }
+
     ArticulatedBodyInertia operator+(const RigidBodyInertia& Ia, const ArticulatedBodyInertia& Ib){
         return ArticulatedBodyInertia(Ia)+Ib;
     }
@@ -61,6 +65,10 @@ namespace KDL{
         return ArticulatedBodyInertia(Ia.M-Ib.M,Ia.H-Ib.H,Ia.I-Ib.I);
     }
 
+    ArticulatedBodyInertia operator-(const ArticulatedBodyInertia& Ia, const RigidBodyInertia& Ib){
+        return Ia-ArticulatedBodyInertia(Ib);
+    }
+
     ArticulatedBodyInertia operator-(const RigidBodyInertia& Ia, const ArticulatedBodyInertia& Ib){
         return ArticulatedBodyInertia(Ia)-Ib;
     }
-- 
2.43.0


From 2849199856c74d72e8fb8d4adc85c7c65af1a369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:00 +0000
Subject: [PATCH 46/67] fix: ChainHdSolver_Vereshchagin: error read-out
 accessible, changed number of joints refused

---
 orocos_kdl/src/chainhdsolver_vereshchagin.cpp | 3 +--
 orocos_kdl/src/chainhdsolver_vereshchagin.hpp | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
index 75f58e9..030d7d6 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
@@ -56,8 +56,7 @@ void ChainHdSolver_Vereshchagin::updateInternalDataStructures() {
 int ChainHdSolver_Vereshchagin::CartToJnt(const JntArray &q, const JntArray &q_dot, JntArray &q_dotdot, const Jacobian& alfa, const JntArray& beta, const Wrenches& f_ext, const JntArray &ff_torques, JntArray &constraint_torques)
 {
     //Check sizes always
-    nj = chain.getNrOfJoints();
-    if(ns != chain.getNrOfSegments())
+    if(nj != chain.getNrOfJoints() || ns != chain.getNrOfSegments())
         return (error = E_NOT_UP_TO_DATE);
     if (q.rows() != nj || q_dot.rows() != nj || q_dotdot.rows() != nj || ff_torques.rows() != nj || constraint_torques.rows() != nj || f_ext.size() != ns)
         return (error = E_SIZE_MISMATCH);
diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.hpp b/orocos_kdl/src/chainhdsolver_vereshchagin.hpp
index 86be647..c3c4944 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.hpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.hpp
@@ -363,7 +363,7 @@ namespace KDL
  * @ingroup KinematicFamily
  */
 
-class ChainHdSolver_Vereshchagin : KDL::SolverI
+class ChainHdSolver_Vereshchagin : public KDL::SolverI
 {
     typedef std::vector<Twist> Twists;
     typedef std::vector<Frame> Frames;
-- 
2.43.0


From 7ea4910d86a38ea8950f7e0d5cdcaa08657c0e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:05 +0000
Subject: [PATCH 47/67] fix: forward kinematics of all segments report their
 errors

---
 orocos_kdl/src/chainfksolverpos_recursive.cpp | 10 +++++-----
 orocos_kdl/src/chainfksolvervel_recursive.cpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/orocos_kdl/src/chainfksolverpos_recursive.cpp b/orocos_kdl/src/chainfksolverpos_recursive.cpp
index 487569c..c0e016d 100644
--- a/orocos_kdl/src/chainfksolverpos_recursive.cpp
+++ b/orocos_kdl/src/chainfksolverpos_recursive.cpp
@@ -65,13 +65,13 @@ namespace KDL {
             segmentNr = seg_nr;
 
         if(q_in.rows()!=chain.getNrOfJoints())
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr>chain.getNrOfSegments())
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else if(p_out.size() != segmentNr)
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr == 0)
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else{
             int j=0;
             // Initialization
@@ -89,7 +89,7 @@ namespace KDL {
                     p_out[i] = p_out[i-1]*chain.getSegment(i).pose(0.0);
                 }
             }
-            return 0;
+            return (error = E_NOERROR);
         }
     }
 
diff --git a/orocos_kdl/src/chainfksolvervel_recursive.cpp b/orocos_kdl/src/chainfksolvervel_recursive.cpp
index 8957db0..ec485f1 100644
--- a/orocos_kdl/src/chainfksolvervel_recursive.cpp
+++ b/orocos_kdl/src/chainfksolvervel_recursive.cpp
@@ -76,13 +76,13 @@ namespace KDL
 
 
         if(!(in.q.rows()==chain.getNrOfJoints()&&in.qdot.rows()==chain.getNrOfJoints()))
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr>chain.getNrOfSegments())
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else if(out.size()!=segmentNr)
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr == 0)
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else{
             int j=0;
             // Initialization
@@ -105,7 +105,7 @@ namespace KDL
                                      chain.getSegment(i).twist(0.0,0.0));
                 }
             }
-            return 0;
+            return (error = E_NOERROR);
         }
     }
 }
-- 
2.43.0


From 19f02c90b3a8542523cb7d24462a03f6a1473db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:10 +0000
Subject: [PATCH 48/67] fix: ChainJntToJacDotSolver checks the size of the
 velocities and reports refused locks

---
 orocos_kdl/src/chainjnttojacdotsolver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainjnttojacdotsolver.cpp b/orocos_kdl/src/chainjnttojacdotsolver.cpp
index 2260705..2a3e0fc 100644
--- a/orocos_kdl/src/chainjnttojacdotsolver.cpp
+++ b/orocos_kdl/src/chainjnttojacdotsolver.cpp
@@ -80,7 +80,7 @@ int ChainJntToJacDotSolver::JntToJacDot(const JntArrayVel& q_in, Jacobian& jdot,
     //Initialize Jacobian to zero since only segmentNr columns are computed
     SetToZero(jdot) ;
 
-    if(q_in.q.rows()!=chain.getNrOfJoints() || nr_of_unlocked_joints_!=jdot.columns())
+    if(q_in.q.rows()!=chain.getNrOfJoints() || q_in.qdot.rows()!=chain.getNrOfJoints() || nr_of_unlocked_joints_!=jdot.columns())
         return (error = E_SIZE_MISMATCH);
     else if(segmentNr>chain.getNrOfSegments())
         return (error = E_OUT_OF_RANGE);
@@ -235,8 +235,10 @@ void ChainJntToJacDotSolver::setRepresentation(const int& representation)
 
 int ChainJntToJacDotSolver::setLockedJoints(const std::vector<bool>& locked_joints)
 {
+    if(locked_joints_.size() != chain.getNrOfJoints())
+        return (error = E_NOT_UP_TO_DATE);
     if(locked_joints.size()!=locked_joints_.size())
-        return E_SIZE_MISMATCH;
+        return (error = E_SIZE_MISMATCH);
     locked_joints_=locked_joints;
     nr_of_unlocked_joints_=0;
     for(unsigned int i=0;i<locked_joints_.size();i++){
-- 
2.43.0


From 465201d840c3392eca6609b003903553278044e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:16 +0000
Subject: [PATCH 49/67] fix: ChainDynParam stores the error of JntToCoriolis
 and JntToGravity

---
 orocos_kdl/src/chaindynparam.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chaindynparam.cpp b/orocos_kdl/src/chaindynparam.cpp
index f9f9fb9..4a3b63e 100644
--- a/orocos_kdl/src/chaindynparam.cpp
+++ b/orocos_kdl/src/chaindynparam.cpp
@@ -131,7 +131,7 @@ namespace KDL {
 
 
 	//the calculation of coriolis matrix C
-	return chainidsolver_coriolis.CartToJnt(q, q_dot, jntarraynull, wrenchnull, coriolis);
+	return (error = chainidsolver_coriolis.CartToJnt(q, q_dot, jntarraynull, wrenchnull, coriolis));
 
     }
 
@@ -143,7 +143,7 @@ namespace KDL {
 
 	SetToZero(jntarraynull);
 	//the calculation of coriolis matrix C
-	return chainidsolver_gravity.CartToJnt(q, jntarraynull, jntarraynull, wrenchnull, gravity);
+	return (error = chainidsolver_gravity.CartToJnt(q, jntarraynull, jntarraynull, wrenchnull, gravity));
     }
 
     ChainDynParam::~ChainDynParam()
-- 
2.43.0


From f1ba81a94a3fc8b62a2f1731cb62df41984f621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:12 +0000
Subject: [PATCH 50/67] fix: ChainIkSolverVel_wdls refuses weights of another
 shape; codes are stored

---
 orocos_kdl/src/chainiksolvervel_pinv_nso.cpp | 2 +-
 orocos_kdl/src/chainiksolvervel_wdls.cpp     | 4 ++--
 orocos_kdl/src/chainiksolvervel_wdls.hpp     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
index dc971f4..5e0a1a9 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
@@ -184,7 +184,7 @@ namespace KDL
     int ChainIkSolverVel_pinv_nso::setAlpha(const double _alpha)
     {
       alpha = _alpha;
-      return 0;
+      return (error = E_NOERROR);
     }
 
 
diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index 1752937..b8a7bc2 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -78,14 +78,14 @@ namespace KDL
         if(nj != chain.getNrOfJoints())
             return (error = E_NOT_UP_TO_DATE);
 
-        if (Mq.size() != weight_js.size())
+        if (Mq.rows() != weight_js.rows() || Mq.cols() != weight_js.cols())
             return (error = E_SIZE_MISMATCH);
         weight_js = Mq;
         return (error = E_NOERROR);
     }
     
     int ChainIkSolverVel_wdls::setWeightTS(const Eigen::MatrixXd& Mx){
-        if (Mx.size() != weight_ts.size())
+        if (Mx.rows() != weight_ts.rows() || Mx.cols() != weight_ts.cols())
             return (error = E_SIZE_MISMATCH);
         weight_ts = Mx;
         return (error = E_NOERROR);
diff --git a/orocos_kdl/src/chainiksolvervel_wdls.hpp b/orocos_kdl/src/chainiksolvervel_wdls.hpp
index dbba19b..006f004 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.hpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.hpp
@@ -102,7 +102,7 @@ namespace KDL
          * not (yet) implemented.
          *
          */
-        virtual int CartToJnt(const JntArray& /*q_init*/, const FrameVel& /*v_in*/, JntArrayVel& /*q_out*/){return -1;};
+        virtual int CartToJnt(const JntArray& /*q_init*/, const FrameVel& /*v_in*/, JntArrayVel& /*q_out*/){return (error = E_NOT_IMPLEMENTED);};
 
         /**
          * Set the joint space weighting matrix
-- 
2.43.0


From c4a010003facb0cf0d2d34440358ad94da26dd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:16 +0000
Subject: [PATCH 51/67] fix: ChainFdSolver_RNE::updateInternalDataStructures
 updates everything

---
 .../src/chainfdsolver_recursive_newton_euler.cpp       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
index 41947b3..82e69e6 100644
--- a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
+++ b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
@@ -46,6 +46,16 @@ namespace KDL{
     void ChainFdSolver_RNE::updateInternalDataStructures() {
         nj = chain.getNrOfJoints();
         ns = chain.getNrOfSegments();
+        DynSolver.updateInternalDataStructures();
+        IdSolver.updateInternalDataStructures();
+        H.resize(nj);
+        Tzeroacc.resize(nj);
+        H_eig.resize(nj,nj);
+        Tzeroacc_eig.resize(nj);
+        L_eig.resize(nj,nj);
+        D_eig.resize(nj);
+        r_eig.resize(nj);
+        acc_eig.resize(nj);
     }
 
     int ChainFdSolver_RNE::CartToJnt(const JntArray &q, const JntArray &q_dot, const JntArray &torques, const Wrenches& f_ext, JntArray &q_dotdot)
-- 
2.43.0


From 3049694431f85bd1170f241c06a1f840b6542071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:13 +0000
Subject: [PATCH 52/67] fix: solve position IK for chains without joints in
 ChainIkSolverPos_LMA

---
 orocos_kdl/src/chainiksolverpos_lma.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/orocos_kdl/src/chainiksolverpos_lma.cpp b/orocos_kdl/src/chainiksolverpos_lma.cpp
index 0728532..cbcc1b6 100644
--- a/orocos_kdl/src/chainiksolverpos_lma.cpp
+++ b/orocos_kdl/src/chainiksolverpos_lma.cpp
@@ -207,6 +207,14 @@ int ChainIkSolverPos_LMA::CartToJnt(const KDL::JntArray& q_init, const KDL::Fram
 	Twist_to_Eigen( diff( T_base_head, T_base_goal), delta_pos );
 	delta_pos=L.asDiagonal()*delta_pos;
 	delta_pos_norm = delta_pos.norm();
+	if (nj == 0) {  // nothing to move, and no jacobian to decompose
+		lastNrOfIter    = 0;
+		Twist_to_Eigen( diff( T_base_head, T_base_goal), delta_pos );
+		lastDifference  = delta_pos_norm;
+		lastTransDiff   = delta_pos.topRows(3).norm();
+		lastRotDiff     = delta_pos.bottomRows(3).norm();
+		return (error = delta_pos_norm<eps ? (int)E_NOERROR : (int)E_INCREMENT_JOINTS_TOO_SMALL);
+	}
 	compute_jacobian(q);
 	jac = L.asDiagonal()*jac;
 	if (delta_pos_norm<eps) {
-- 
2.43.0


From 972b3672f8bfff62e20926c15b59f2dd5abb0496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:06 +0000
Subject: [PATCH 53/67] fix: plan zero-length, short and backward velocity
 profiles correctly and copy profiles as they are

---
 orocos_kdl/src/velocityprofile_dirac.cpp    |  2 +-
 orocos_kdl/src/velocityprofile_rect.cpp     |  6 ++---
 orocos_kdl/src/velocityprofile_rect.hpp     |  4 +---
 orocos_kdl/src/velocityprofile_trap.cpp     |  8 +++----
 orocos_kdl/src/velocityprofile_traphalf.cpp | 25 +++++++++++++--------
 5 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_dirac.cpp b/orocos_kdl/src/velocityprofile_dirac.cpp
index 23c915b..cc0472d 100644
--- a/orocos_kdl/src/velocityprofile_dirac.cpp
+++ b/orocos_kdl/src/velocityprofile_dirac.cpp
@@ -45,7 +45,7 @@ namespace KDL {
     SetProfileDuration(double pos1,double pos2,double duration)
     {
         SetProfile(pos1,pos2);
-        t = duration;
+        t = (duration>0)?duration:0;
     }
 
     double VelocityProfile_Dirac::Duration() const {
diff --git a/orocos_kdl/src/velocityprofile_rect.cpp b/orocos_kdl/src/velocityprofile_rect.cpp
index 7992c1e..5b05495 100644
--- a/orocos_kdl/src/velocityprofile_rect.cpp
+++ b/orocos_kdl/src/velocityprofile_rect.cpp
@@ -81,8 +81,8 @@ void VelocityProfile_Rectangular::
     if ( diff != 0 )
         {
             v    = diff/duration;
-            if (v > maxvel || duration==0 ) // safety.
-                v=maxvel;
+            if (duration<=0 || v > maxvel || v < -maxvel ) // safety.
+                v = (diff>0)?maxvel:-maxvel;
             p    = pos1;               // start pos
             d    = diff/v;
         }
@@ -90,7 +90,7 @@ void VelocityProfile_Rectangular::
         {
             v    = 0;
             p    = pos1;
-            d    = duration;
+            d    = (duration>0)?duration:0;
         }
 }
 
diff --git a/orocos_kdl/src/velocityprofile_rect.hpp b/orocos_kdl/src/velocityprofile_rect.hpp
index 4482779..4f049b9 100644
--- a/orocos_kdl/src/velocityprofile_rect.hpp
+++ b/orocos_kdl/src/velocityprofile_rect.hpp
@@ -76,9 +76,7 @@ namespace KDL {
 		virtual double Acc(double time) const;
 		virtual void Write(std::ostream& os) const;
 		virtual VelocityProfile* Clone() const{
-			VelocityProfile_Rectangular* res =  new VelocityProfile_Rectangular(maxvel);
-			res->SetProfileDuration( p, p+v*d, d );
-			return res;
+			return new VelocityProfile_Rectangular(*this);
 		}
 		// returns copy of current VelocityProfile object. (virtual constructor)
 		virtual ~VelocityProfile_Rectangular() {}
diff --git a/orocos_kdl/src/velocityprofile_trap.cpp b/orocos_kdl/src/velocityprofile_trap.cpp
index 1bee674..a6a7e4e 100644
--- a/orocos_kdl/src/velocityprofile_trap.cpp
+++ b/orocos_kdl/src/velocityprofile_trap.cpp
@@ -94,9 +94,9 @@ void VelocityProfile_Trap::SetProfileDuration(
 	// Fastest :
 	SetProfile(pos1,pos2);
 	// Must be Slower  :
-	double factor = duration/newduration;
-	if (factor > 1)
+	if (newduration <= duration)
 		return; // do not exceed max
+	double factor = duration/newduration;
 	a2*=factor;
 	a3*=factor*factor;
 	b2*=factor;
@@ -178,9 +178,7 @@ double VelocityProfile_Trap::Acc(double time) const {
 }
 
 VelocityProfile* VelocityProfile_Trap::Clone() const {
-	VelocityProfile_Trap* res =  new VelocityProfile_Trap(maxvel,maxacc);
-	res->SetProfileDuration( this->startpos, this->endpos, this->duration );
-	return res;
+	return new VelocityProfile_Trap(*this);
 }
 
 VelocityProfile_Trap::~VelocityProfile_Trap() {}
diff --git a/orocos_kdl/src/velocityprofile_traphalf.cpp b/orocos_kdl/src/velocityprofile_traphalf.cpp
index 05ff180..0d1993e 100644
--- a/orocos_kdl/src/velocityprofile_traphalf.cpp
+++ b/orocos_kdl/src/velocityprofile_traphalf.cpp
@@ -85,7 +85,7 @@ void VelocityProfile_TrapHalf::SetProfile(double pos1,double pos2) {
 	double s        = sign(endpos-startpos);
 	// check that the maxvel is obtainable
 	double vel = std::min(maxvel, sqrt(2.0*s*(endpos-startpos)*maxacc));
-	duration		= s*(endpos-startpos)/vel+vel/maxacc/2.0;
+	duration		= vel > 0 ? s*(endpos-startpos)/vel+vel/maxacc/2.0 : 0;
 	if (starting) {
 		t1 = 0;
 		t2 = vel/maxacc;
@@ -101,15 +101,24 @@ void VelocityProfile_TrapHalf::SetProfileDuration(
 	double pos1,double pos2,double newduration)
 {
 	SetProfile(pos1,pos2);
-	double factor = duration/newduration;
-
-	if ( factor > 1 )
+	if ( newduration <= duration )
 		return;
 
 	double s        = sign(endpos-startpos);
-	double tmp      = 2.0*s*(endpos-startpos)/maxvel;
-	double v        = s*maxvel;
+	// the velocity that is obtainable, as in SetProfile
+	double vel      = std::min(maxvel, sqrt(2.0*s*(endpos-startpos)*maxacc));
 	duration        = newduration;
+	if (vel == 0) {
+		// nothing to move : stand still
+		t1 = t2 = duration;
+		if (starting)
+			PlanProfile1(0,0);
+		else
+			PlanProfile2(0,0);
+		return;
+	}
+	double tmp      = 2.0*s*(endpos-startpos)/vel;
+	double v        = s*vel;
 	if (starting) {
 		if (tmp > duration) {
 			t1 = 0;
@@ -183,9 +192,7 @@ double VelocityProfile_TrapHalf::Acc(double time) const {
 }
 
 VelocityProfile* VelocityProfile_TrapHalf::Clone() const {
-	VelocityProfile_TrapHalf* res =  new VelocityProfile_TrapHalf(maxvel,maxacc, starting);
-	res->SetProfileDuration( this->startpos, this->endpos, this->duration );
-	return res;
+	return new VelocityProfile_TrapHalf(*this);
 }
 
 VelocityProfile_TrapHalf::~VelocityProfile_TrapHalf() {}
-- 
2.43.0


From b21ec76f97cb74c494e29400634611b0edc93d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:20 +0000
Subject: [PATCH 54/67] fix: clone, write and release paths correctly, turn by
 the twist in the base frame

---
 orocos_kdl/src/path_circle.cpp           | 13 +++++++++----
 orocos_kdl/src/path_composite.cpp        |  2 +-
 orocos_kdl/src/path_cyclic_closed.cpp    |  2 +-
 orocos_kdl/src/path_line.cpp             |  2 +-
 orocos_kdl/src/path_roundedcomposite.cpp |  9 ++++++++-
 5 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/orocos_kdl/src/path_circle.cpp b/orocos_kdl/src/path_circle.cpp
index 53261e8..841df99 100644
--- a/orocos_kdl/src/path_circle.cpp
+++ b/orocos_kdl/src/path_circle.cpp
@@ -88,6 +88,11 @@ Path_Circle::Path_Circle(const Frame& F_base_start,
         pathlength = oalpha*eqradius;
         scalerot = 1/eqradius;
         scalelin = dist/pathlength;
+    } else if (dist == 0) {
+        // both were zero
+        pathlength = 0;
+        scalerot = 1;
+        scalelin = 1;
     } else {
         // translation is the limitation
         pathlength = dist;
@@ -141,12 +146,12 @@ Path* Path_Circle::Clone() {
 	return new Path_Circle(
 		Pos(0),
 		F_base_center.p,
-		F_base_center.M.UnitY(),
+		F_base_center.p + F_base_center.M.UnitY(),
 		orient->Pos(pathlength*scalerot),
-		pathlength*scalelin/radius/deg2rad,
+		pathlength*scalelin/radius,
 		orient->Clone(),
 		eqradius,
-        aggregate
+        true
 	);
 }
 
@@ -159,7 +164,7 @@ void Path_Circle::Write(std::ostream& os) {
 	os << "CIRCLE[ ";
 	os << "  " << Pos(0) << std::endl;
 	os << "  " << F_base_center.p << std::endl;
-	os << "  " << F_base_center.M.UnitY() << std::endl;
+	os << "  " << F_base_center.p + F_base_center.M.UnitY() << std::endl;
 	os << "  " << orient->Pos(pathlength*scalerot) << std::endl;
 	os << "  " << pathlength*scalelin/radius/deg2rad << std::endl;
 	os << "  ";orient->Write(os);
diff --git a/orocos_kdl/src/path_composite.cpp b/orocos_kdl/src/path_composite.cpp
index c93f5a2..d4c74e6 100644
--- a/orocos_kdl/src/path_composite.cpp
+++ b/orocos_kdl/src/path_composite.cpp
@@ -113,7 +113,7 @@ Twist Path_Composite::Acc(double s,double sd,double sdd) const {
 Path* Path_Composite::Clone()  {
 	scoped_ptr<Path_Composite> comp( new Path_Composite() );
 	for (unsigned int i = 0; i < dv.size(); ++i) {
-		comp->Add(gv[i].first->Clone(), gv[i].second);
+		comp->Add(gv[i].first->Clone());
 	}
 	return comp.release();
 }
diff --git a/orocos_kdl/src/path_cyclic_closed.cpp b/orocos_kdl/src/path_cyclic_closed.cpp
index fa5c65f..d4d455b 100644
--- a/orocos_kdl/src/path_cyclic_closed.cpp
+++ b/orocos_kdl/src/path_cyclic_closed.cpp
@@ -76,7 +76,7 @@ Path_Cyclic_Closed::~Path_Cyclic_Closed() {
 }
 
 Path* Path_Cyclic_Closed::Clone() {
-	return new Path_Cyclic_Closed(geom->Clone(),times, aggregate);
+	return new Path_Cyclic_Closed(geom->Clone(),times);
 }
 
 void Path_Cyclic_Closed::Write(std::ostream& os)  {
diff --git a/orocos_kdl/src/path_line.cpp b/orocos_kdl/src/path_line.cpp
index 789f542..f9b3c0b 100644
--- a/orocos_kdl/src/path_line.cpp
+++ b/orocos_kdl/src/path_line.cpp
@@ -101,7 +101,7 @@ Path_Line::Path_Line(const Frame& startpos,
        // startframe.Integrate(starttwist, 1);
 	   	V_start_end = V_base_end - V_base_start;
 	   	double dist = V_start_end.Normalize(); // distance traveled during 1 time unit
-		orient->SetStartEnd(startpos.M, (startpos*Frame( Rotation::Rot(starttwist.rot, starttwist.rot.Norm() ), starttwist.vel )).M);
+		orient->SetStartEnd(startpos.M, Rotation::Rot(starttwist.rot, starttwist.rot.Norm())*startpos.M);
 		double alpha = orient->Angle();        // rotation during 1 time unit
 
 		// See what has the slowest eq. motion, and adapt
diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 2916505..1741a7b 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -63,6 +63,9 @@ Path_RoundedComposite::Path_RoundedComposite(double _radius,double _eqradius,Rot
 {
 		nrofpoints = 0;
 		if (eqradius<=0) {
+			delete comp;
+			if (aggregate)
+				delete orient;
 			throw Error_MotionPlanning_Not_Feasible(1);
 		}
 }
@@ -71,6 +74,7 @@ void Path_RoundedComposite::Add(const Frame& F_base_point) {
 	double eps = 1E-7;
 	if (nrofpoints == 0) {
 		F_base_start = F_base_point;
+		F_base_via = F_base_point;
 	} else if (nrofpoints == 1) {
 		F_base_via = F_base_point;
 	} else {
@@ -196,7 +200,10 @@ Path_RoundedComposite::~Path_RoundedComposite() {
 
 
 Path* Path_RoundedComposite::Clone() {
-	return new Path_RoundedComposite(static_cast<Path_Composite*>(comp->Clone()),radius,eqradius,orient->Clone(), true, nrofpoints);
+	Path_RoundedComposite* clone = new Path_RoundedComposite(static_cast<Path_Composite*>(comp->Clone()),radius,eqradius,orient->Clone(), true, nrofpoints);
+	clone->F_base_start = F_base_start;
+	clone->F_base_via = F_base_via;
+	return clone;
 }
 
 }
-- 
2.43.0


From 9bf53f7f1ee97935f0101b8f2cc0391b22b47524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:46 +0000
Subject: [PATCH 55/67] fix: empty a composite trajectory completely and time
 trajectories that are read

---
 orocos_kdl/src/trajectory.cpp           | 2 ++
 orocos_kdl/src/trajectory_composite.cpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/orocos_kdl/src/trajectory.cpp b/orocos_kdl/src/trajectory.cpp
index 914af5f..42e410d 100644
--- a/orocos_kdl/src/trajectory.cpp
+++ b/orocos_kdl/src/trajectory.cpp
@@ -65,6 +65,8 @@ Trajectory* Trajectory::Read(std::istream& is) {
 		EatEnd(is,']');
 		IOTracePop();
 		IOTracePop();
+		// the text holds the limits of the profile, not its plan
+		motprof->SetProfile(0,geom->PathLength());
 		return new  Trajectory_Segment(geom.release(),motprof.release());
 	} else {
 		throw Error_MotionIO_Unexpected_Traj();
diff --git a/orocos_kdl/src/trajectory_composite.cpp b/orocos_kdl/src/trajectory_composite.cpp
index 1583608..c3758ab 100644
--- a/orocos_kdl/src/trajectory_composite.cpp
+++ b/orocos_kdl/src/trajectory_composite.cpp
@@ -98,6 +98,7 @@ namespace KDL {
         }
         vt.erase(vt.begin(),vt.end());
         vd.erase(vd.begin(),vd.end());
+        duration = 0;
     }
 
     Trajectory_Composite::~Trajectory_Composite() {
-- 
2.43.0


From 8ee89e0ec207970cba546d25a2098baa5bb9b39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:53 +0000
Subject: [PATCH 56/67] fix: scale joint arrays by differentiating factors in
 place and zero resized inertia matrices

---
 orocos_kdl/src/jntarrayacc.cpp           | 44 ++++++++----------------
 orocos_kdl/src/jntarrayvel.cpp           | 10 +++---
 orocos_kdl/src/jntspaceinertiamatrix.cpp |  2 +-
 3 files changed, 19 insertions(+), 37 deletions(-)

diff --git a/orocos_kdl/src/jntarrayacc.cpp b/orocos_kdl/src/jntarrayacc.cpp
index 2d0949a..55e11f4 100644
--- a/orocos_kdl/src/jntarrayacc.cpp
+++ b/orocos_kdl/src/jntarrayacc.cpp
@@ -109,24 +109,16 @@ namespace KDL
     }
     void Multiply(const JntArrayAcc& src,const doubleVel& factor,JntArrayAcc& dest)
     {
-        Multiply(src.qdot,factor.grad*2,dest.qdot);
-        Multiply(src.qdotdot,factor.t,dest.qdotdot);
-        Add(dest.qdot,dest.qdotdot,dest.qdotdot);
-        Multiply(src.q,factor.grad,dest.q);
-        Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        // derivatives first: src and dest can be the same array
+        dest.qdotdot.data=src.qdotdot.data*factor.t+src.qdot.data*(factor.grad*2);
+        dest.qdot.data=src.qdot.data*factor.t+src.q.data*factor.grad;
         Multiply(src.q,factor.t,dest.q);
     }
     void Multiply(const JntArrayAcc& src,const doubleAcc& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,factor.dd,dest.q);
-        Multiply(src.qdot,factor.d*2,dest.qdot);
-        Multiply(src.qdotdot,factor.t,dest.qdotdot);
-        Add(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.d,dest.q);
-        Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        // derivatives first: src and dest can be the same array
+        dest.qdotdot.data=src.qdotdot.data*factor.t+src.qdot.data*(factor.d*2)+src.q.data*factor.dd;
+        dest.qdot.data=src.qdot.data*factor.t+src.q.data*factor.d;
         Multiply(src.q,factor.t,dest.q);
     }
 
@@ -138,26 +130,18 @@ namespace KDL
     }
     void Divide(const JntArrayAcc& src,const doubleVel& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,(2*factor.grad*factor.grad)/(factor.t*factor.t*factor.t),dest.q);
-        Multiply(src.qdot,(2*factor.grad)/(factor.t*factor.t),dest.qdot);
-        Divide(src.qdotdot,factor.t,dest.qdotdot);
-        Subtract(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.grad/(factor.t*factor.t),dest.q);
-        Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        // derivatives first: src and dest can be the same array
+        dest.qdotdot.data=src.qdotdot.data/factor.t-src.qdot.data*((2*factor.grad)/(factor.t*factor.t))
+            +src.q.data*((2*factor.grad*factor.grad)/(factor.t*factor.t*factor.t));
+        dest.qdot.data=src.qdot.data/factor.t-src.q.data*(factor.grad/(factor.t*factor.t));
         Divide(src.q,factor.t,dest.q);
     }
     void Divide(const JntArrayAcc& src,const doubleAcc& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,(2*factor.d*factor.d)/(factor.t*factor.t*factor.t)-factor.dd/(factor.t*factor.t),dest.q);
-        Multiply(src.qdot,(2*factor.d)/(factor.t*factor.t),dest.qdot);
-        Divide(src.qdotdot,factor.t,dest.qdotdot);
-        Subtract(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.d/(factor.t*factor.t),dest.q);
-        Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        // derivatives first: src and dest can be the same array
+        dest.qdotdot.data=src.qdotdot.data/factor.t-src.qdot.data*((2*factor.d)/(factor.t*factor.t))
+            +src.q.data*((2*factor.d*factor.d)/(factor.t*factor.t*factor.t)-factor.dd/(factor.t*factor.t));
+        dest.qdot.data=src.qdot.data/factor.t-src.q.data*(factor.d/(factor.t*factor.t));
         Divide(src.q,factor.t,dest.q);
     }
 
diff --git a/orocos_kdl/src/jntarrayvel.cpp b/orocos_kdl/src/jntarrayvel.cpp
index 2a14250..8057de1 100644
--- a/orocos_kdl/src/jntarrayvel.cpp
+++ b/orocos_kdl/src/jntarrayvel.cpp
@@ -83,9 +83,8 @@ namespace KDL
     }
     void Multiply(const JntArrayVel& src,const doubleVel& factor,JntArrayVel& dest)
     {
-        Multiply(src.q,factor.grad,dest.q);
-        Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        // derivatives first: src and dest can be the same array
+        dest.qdot.data=src.qdot.data*factor.t+src.q.data*factor.grad;
         Multiply(src.q,factor.t,dest.q);
     }
 
@@ -96,9 +95,8 @@ namespace KDL
     }
     void Divide(const JntArrayVel& src,const doubleVel& factor,JntArrayVel& dest)
     {
-        Multiply(src.q,(factor.grad/factor.t/factor.t),dest.q);
-        Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        // derivatives first: src and dest can be the same array
+        dest.qdot.data=src.qdot.data/factor.t-src.q.data*(factor.grad/factor.t/factor.t);
         Divide(src.q,factor.t,dest.q);
     }
 
diff --git a/orocos_kdl/src/jntspaceinertiamatrix.cpp b/orocos_kdl/src/jntspaceinertiamatrix.cpp
index fb8a4fe..2969c3f 100644
--- a/orocos_kdl/src/jntspaceinertiamatrix.cpp
+++ b/orocos_kdl/src/jntspaceinertiamatrix.cpp
@@ -52,7 +52,7 @@ namespace KDL
 
     void JntSpaceInertiaMatrix::resize(unsigned int newSize)
     {
-        data.resize(newSize,newSize);
+        data.setZero(newSize,newSize);
     }
 
     double JntSpaceInertiaMatrix::operator()(unsigned int i,unsigned int j)const
-- 
2.43.0


From c0f12a03035840b7a55292240d665b1c96861249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:05 +0000
Subject: [PATCH 57/67] fix: resizing an inertia matrix keeps its elements and
 zeroes the new ones

---
 orocos_kdl/src/jntspaceinertiamatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/jntspaceinertiamatrix.cpp b/orocos_kdl/src/jntspaceinertiamatrix.cpp
index 2969c3f..87ec891 100644
--- a/orocos_kdl/src/jntspaceinertiamatrix.cpp
+++ b/orocos_kdl/src/jntspaceinertiamatrix.cpp
@@ -52,7 +52,7 @@ namespace KDL
 
     void JntSpaceInertiaMatrix::resize(unsigned int newSize)
     {
-        data.setZero(newSize,newSize);
+        data.conservativeResizeLike(Eigen::MatrixXd::Zero(newSize,newSize));
     }
 
     double JntSpaceInertiaMatrix::operator()(unsigned int i,unsigned int j)const
-- 
2.43.0


From 15dab146335f6283a447f809681c1ae30de6e945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:41 +0000
Subject: [PATCH 58/67] fix: PyKDL: keep chains and solvers alive while solvers
 refer to them

---
 python_orocos_kdl/PyKDL/dynamics.cpp |  2 +-
 python_orocos_kdl/PyKDL/kinfam.cpp   | 29 +++++++++++++++-------------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/python_orocos_kdl/PyKDL/dynamics.cpp b/python_orocos_kdl/PyKDL/dynamics.cpp
index 46d0f50..6e81a3b 100644
--- a/python_orocos_kdl/PyKDL/dynamics.cpp
+++ b/python_orocos_kdl/PyKDL/dynamics.cpp
@@ -86,7 +86,7 @@ void init_dynamics(pybind11::module &m)
     // ChainDynParam
     // --------------------
     py::class_<ChainDynParam> chain_dyn_param(m, "ChainDynParam");
-    chain_dyn_param.def(py::init<const Chain&, Vector>());
+    chain_dyn_param.def(py::init<const Chain&, Vector>(), py::keep_alive<1, 2>());
     chain_dyn_param.def("JntToCoriolis", &ChainDynParam::JntToCoriolis, py::arg("q"), py::arg("q_dot"), py::arg("coriolis"));
     chain_dyn_param.def("JntToMass", &ChainDynParam::JntToMass, py::arg("q"), py::arg("H"));
     chain_dyn_param.def("JntToGravity", &ChainDynParam::JntToGravity, py::arg("q"), py::arg("gravity"));
diff --git a/python_orocos_kdl/PyKDL/kinfam.cpp b/python_orocos_kdl/PyKDL/kinfam.cpp
index fec7eda..47993d1 100644
--- a/python_orocos_kdl/PyKDL/kinfam.cpp
+++ b/python_orocos_kdl/PyKDL/kinfam.cpp
@@ -355,14 +355,14 @@ void init_kinfam(pybind11::module &m)
     // ChainFkSolverPos_recursive
     // ------------------------------
     py::class_<ChainFkSolverPos_recursive, ChainFkSolverPos> chain_fk_solver_pos_recursive(m, "ChainFkSolverPos_recursive");
-    chain_fk_solver_pos_recursive.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_fk_solver_pos_recursive.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
 
 
     // ------------------------------
     // ChainFkSolverVel_recursive
     // ------------------------------
     py::class_<ChainFkSolverVel_recursive, ChainFkSolverVel> chain_fk_solver_vel_recursive(m, "ChainFkSolverVel_recursive");
-    chain_fk_solver_vel_recursive.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_fk_solver_vel_recursive.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
 
 
     // --------------------
@@ -390,7 +390,8 @@ void init_kinfam(pybind11::module &m)
     py::class_<ChainIkSolverPos_NR, ChainIkSolverPos> chain_ik_solver_pos_NR(m, "ChainIkSolverPos_NR");
     chain_ik_solver_pos_NR.def(py::init<const Chain&, ChainFkSolverPos&, ChainIkSolverVel&, unsigned int, double>(),
                                py::arg("chain"), py::arg("fksolver"), py::arg("iksolver"),
-                               py::arg("maxiter")=100, py::arg("eps")=epsilon);
+                               py::arg("maxiter")=100, py::arg("eps")=epsilon,
+                               py::keep_alive<1, 2>(), py::keep_alive<1, 3>(), py::keep_alive<1, 4>());
 
 
     // ---------------------------
@@ -400,7 +401,8 @@ void init_kinfam(pybind11::module &m)
     chain_ik_solver_pos_NR_JL.def(py::init<const Chain&, const JntArray&, const JntArray&, ChainFkSolverPos&,
                                   ChainIkSolverVel&, unsigned int, double>(),
                                   py::arg("chain"), py::arg("q_min"), py::arg("q_max"), py::arg("fksolver"),
-                                  py::arg("iksolver"), py::arg("maxiter")=100, py::arg("eps")=epsilon);
+                                  py::arg("iksolver"), py::arg("maxiter")=100, py::arg("eps")=epsilon,
+                                  py::keep_alive<1, 2>(), py::keep_alive<1, 5>(), py::keep_alive<1, 6>());
 
 
     // -------------------------
@@ -408,7 +410,7 @@ void init_kinfam(pybind11::module &m)
     // -------------------------
     py::class_<ChainIkSolverVel_pinv, ChainIkSolverVel> chain_ik_solver_vel_pinv(m, "ChainIkSolverVel_pinv");
     chain_ik_solver_vel_pinv.def(py::init<const Chain&, double, int>(),
-                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150);
+                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150, py::keep_alive<1, 2>());
 
 
     // -------------------------
@@ -416,7 +418,7 @@ void init_kinfam(pybind11::module &m)
     // -------------------------
     py::class_<ChainIkSolverVel_wdls, ChainIkSolverVel> chain_ik_solver_vel_wdls(m, "ChainIkSolverVel_wdls");
     chain_ik_solver_vel_wdls.def(py::init<const Chain&, double, int>(),
-                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150);
+                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150, py::keep_alive<1, 2>());
     chain_ik_solver_vel_wdls.def("setWeightTS", &ChainIkSolverVel_wdls::setWeightTS, py::arg("matrix"));
     chain_ik_solver_vel_wdls.def("setWeightJS", &ChainIkSolverVel_wdls::setWeightJS, py::arg("matrix"));
     chain_ik_solver_vel_wdls.def("setLambda", &ChainIkSolverVel_wdls::setLambda, py::arg("lambda"));
@@ -437,10 +439,10 @@ void init_kinfam(pybind11::module &m)
     py::class_<ChainIkSolverPos_LMA, ChainIkSolverPos> chain_ik_solver_pos_LMA(m, "ChainIkSolverPos_LMA");
     chain_ik_solver_pos_LMA.def(py::init<const Chain&, const Eigen::Matrix<double,6,1>&, double, int, double>(),
                                 py::arg("chain"), py::arg("L"), py::arg("eps")=1e-5, py::arg("maxiter")=500,
-                                py::arg("eps_joints")=1e-15);
+                                py::arg("eps_joints")=1e-15, py::keep_alive<1, 2>());
     chain_ik_solver_pos_LMA.def(py::init<const Chain&, double, int, double>(),
                                 py::arg("chain"), py::arg("eps")=1e-5, py::arg("maxiter")=500,
-                                py::arg("eps_joints")=1e-15);
+                                py::arg("eps_joints")=1e-15, py::keep_alive<1, 2>());
 
 
     // ----------------------------
@@ -448,7 +450,8 @@ void init_kinfam(pybind11::module &m)
     // ----------------------------
     py::class_<ChainIkSolverVel_pinv_nso, ChainIkSolverVel> chain_ik_solver_vel_pinv_nso(m, "ChainIkSolverVel_pinv_nso");
     chain_ik_solver_vel_pinv_nso.def(py::init<const Chain&, double, int, double>(),
-                                     py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150, py::arg("alpha")=0.25);
+                                     py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150, py::arg("alpha")=0.25,
+                                     py::keep_alive<1, 2>());
     chain_ik_solver_vel_pinv_nso.def("setWeights", &ChainIkSolverVel_pinv_nso::setWeights, py::arg("weights"));
     chain_ik_solver_vel_pinv_nso.def("setOptPos", &ChainIkSolverVel_pinv_nso::setOptPos, py::arg("opt_pos"));
     chain_ik_solver_vel_pinv_nso.def("setAlpha", &ChainIkSolverVel_pinv_nso::setAlpha, py::arg("alpha"));
@@ -461,14 +464,14 @@ void init_kinfam(pybind11::module &m)
     // ChainIkSolverVel_pinv_givens
     // -------------------------------
     py::class_<ChainIkSolverVel_pinv_givens, ChainIkSolverVel> chain_ik_solver_vel_pinv_givens(m, "ChainIkSolverVel_pinv_givens");
-    chain_ik_solver_vel_pinv_givens.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_ik_solver_vel_pinv_givens.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
 
 
     // ------------------------------
     // ChainJntToJacSolver
     // ------------------------------
     py::class_<ChainJntToJacSolver, SolverI> chain_jnt_to_jac_solver(m, "ChainJntToJacSolver");
-    chain_jnt_to_jac_solver.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_jnt_to_jac_solver.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
     chain_jnt_to_jac_solver.def("JntToJac", &ChainJntToJacSolver::JntToJac,
                                 py::arg("q_in"), py::arg("jac"), py::arg("seg_nr")=-1);
     chain_jnt_to_jac_solver.def("setLockedJoints", &ChainJntToJacSolver::setLockedJoints, py::arg("locked_joints"));
@@ -478,7 +481,7 @@ void init_kinfam(pybind11::module &m)
     // ChainJntToJacDotSolver
     // ------------------------------
     py::class_<ChainJntToJacDotSolver, SolverI> chain_jnt_to_jac_dot_solver(m, "ChainJntToJacDotSolver");
-    chain_jnt_to_jac_dot_solver.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_jnt_to_jac_dot_solver.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
     chain_jnt_to_jac_dot_solver.def("JntToJacDot", (int (ChainJntToJacDotSolver::*)(const JntArrayVel&, Jacobian&, int)) &ChainJntToJacDotSolver::JntToJacDot,
                                     py::arg("q_in"), py::arg("jdot"), py::arg("seg_nr")=-1);
     chain_jnt_to_jac_dot_solver.def("JntToJacDot", (int (ChainJntToJacDotSolver::*)(const JntArrayVel&, Twist&, int)) &ChainJntToJacDotSolver::JntToJacDot,
@@ -512,5 +515,5 @@ void init_kinfam(pybind11::module &m)
     // ChainIdSolver_RNE
     // ------------------------------
     py::class_<ChainIdSolver_RNE, ChainIdSolver> chain_id_solver_RNE(m, "ChainIdSolver_RNE");
-    chain_id_solver_RNE.def(py::init<const Chain&, Vector>(), py::arg("chain"), py::arg("grav"));
+    chain_id_solver_RNE.def(py::init<const Chain&, Vector>(), py::arg("chain"), py::arg("grav"), py::keep_alive<1, 2>());
 }
-- 
2.43.0


From 9ce584a513ba3dcb4d6b8230d5ecbcc338bb7653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:11 +0000
Subject: [PATCH 59/67] fix: PyKDL: raise IndexError for segments and columns
 out of range

---
 python_orocos_kdl/PyKDL/kinfam.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/python_orocos_kdl/PyKDL/kinfam.cpp b/python_orocos_kdl/PyKDL/kinfam.cpp
index 47993d1..a587ac8 100644
--- a/python_orocos_kdl/PyKDL/kinfam.cpp
+++ b/python_orocos_kdl/PyKDL/kinfam.cpp
@@ -173,8 +173,13 @@ void init_kinfam(pybind11::module &m)
     chain.def("addChain", &Chain::addChain, py::arg("chain"));
     chain.def("getNrOfJoints", &Chain::getNrOfJoints);
     chain.def("getNrOfSegments", &Chain::getNrOfSegments);
-    chain.def("getSegment", (Segment& (Chain::*)(unsigned int)) &Chain::getSegment, py::arg("index"));
-    chain.def("getSegment", (const Segment& (Chain::*)(unsigned int) const) &Chain::getSegment, py::arg("index"));
+    chain.def("getSegment", [](const Chain &chain, unsigned int index)
+    {
+        if (index >= chain.getNrOfSegments())
+            throw py::index_error("Chain segment index out of range");
+
+        return chain.getSegment(index);
+    }, py::arg("index"));
     chain.def("__repr__", [](const Chain &c)
     {
         std::ostringstream oss;
@@ -217,8 +222,20 @@ void init_kinfam(pybind11::module &m)
     jacobian.def("rows", &Jacobian::rows);
     jacobian.def("columns", &Jacobian::columns);
     jacobian.def("resize", &Jacobian::resize, py::arg("nr_columns"));
-    jacobian.def("getColumn", &Jacobian::getColumn, py::arg("index"));
-    jacobian.def("setColumn", &Jacobian::setColumn, py::arg("index"), py::arg("t"));
+    jacobian.def("getColumn", [](const Jacobian &jac, unsigned int index)
+    {
+        if (index >= jac.columns())
+            throw py::index_error("Jacobian column index out of range");
+
+        return jac.getColumn(index);
+    }, py::arg("index"));
+    jacobian.def("setColumn", [](Jacobian &jac, unsigned int index, const Twist &t)
+    {
+        if (index >= jac.columns())
+            throw py::index_error("Jacobian column index out of range");
+
+        jac.setColumn(index, t);
+    }, py::arg("index"), py::arg("t"));
     jacobian.def("changeRefPoint", &Jacobian::changeRefPoint, py::arg("base"));
     jacobian.def("changeBase", &Jacobian::changeBase, py::arg("rot"));
     jacobian.def("changeRefFrame", &Jacobian::changeRefFrame, py::arg("frame"));
-- 
2.43.0


From cb68b47097dd9951ef14f3bf8b6684bbac2654c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:35 +0000
Subject: [PATCH 60/67] fix: PyKDL: pickle rotations exactly and doubleVel at
 all

---
 python_orocos_kdl/PyKDL/frames.cpp   | 15 ++++++++++-----
 python_orocos_kdl/PyKDL/framevel.cpp | 15 +++++++++++++++
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/python_orocos_kdl/PyKDL/frames.cpp b/python_orocos_kdl/PyKDL/frames.cpp
index 9cbee1b..d03fd94 100644
--- a/python_orocos_kdl/PyKDL/frames.cpp
+++ b/python_orocos_kdl/PyKDL/frames.cpp
@@ -377,17 +377,22 @@ void init_frames(py::module &m)
             [](const Rotation &rot)
             { // __getstate__
                 /* Return a tuple that fully encodes the state of the object */
-                double roll{0}, pitch{0}, yaw{0};
-                rot.GetRPY(roll, pitch, yaw);
-                return py::make_tuple(roll, pitch, yaw);
+                return py::make_tuple(rot(0, 0), rot(0, 1), rot(0, 2),
+                                      rot(1, 0), rot(1, 1), rot(1, 2),
+                                      rot(2, 0), rot(2, 1), rot(2, 2));
             },
             [](py::tuple t)
             { // __setstate__
-                if (t.size() != 3)
+                /* Pickles of earlier versions hold roll, pitch and yaw */
+                if (t.size() == 3)
+                    return Rotation::RPY(t[0].cast<double>(), t[1].cast<double>(), t[2].cast<double>());
+                if (t.size() != 9)
                     throw std::runtime_error("Invalid state!");
 
                 /* Create a new C++ instance */
-                return Rotation::RPY(t[0].cast<double>(), t[1].cast<double>(), t[2].cast<double>());
+                return Rotation(t[0].cast<double>(), t[1].cast<double>(), t[2].cast<double>(),
+                                t[3].cast<double>(), t[4].cast<double>(), t[5].cast<double>(),
+                                t[6].cast<double>(), t[7].cast<double>(), t[8].cast<double>());
             }));
 
     m.def("Equal", (bool (*)(const Rotation&, const Rotation&, double eps)) &KDL::Equal,
diff --git a/python_orocos_kdl/PyKDL/framevel.cpp b/python_orocos_kdl/PyKDL/framevel.cpp
index b8518a0..516e811 100644
--- a/python_orocos_kdl/PyKDL/framevel.cpp
+++ b/python_orocos_kdl/PyKDL/framevel.cpp
@@ -59,6 +59,21 @@ void init_framevel(pybind11::module &m)
     {
         return doubleVel(self);
     }, py::arg("memo"));
+    double_vel.def(py::pickle(
+            [](const doubleVel &d)
+            { // __getstate__
+                /* Return a tuple that fully encodes the state of the object */
+                return py::make_tuple(d.t, d.grad);
+            },
+            [](py::tuple t)
+            { // __setstate__
+                if (t.size() != 2)
+                    throw std::runtime_error("Invalid state!");
+
+                /* Create a new C++ instance */
+                doubleVel d(t[0].cast<double>(), t[1].cast<double>());
+                return d;
+            }));
 
     double_vel.def(py::self == py::self);
     double_vel.def(py::self != py::self);
-- 
2.43.0


From 3564c4840b52f1756bee288bd7918489c719ca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:28 +0000
Subject: [PATCH 61/67] fix: Path_RoundedComposite: round small and shallow
 corners correctly, change nothing when a corner is refused

---
 orocos_kdl/src/path_roundedcomposite.cpp | 27 +++++++++++++++---------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 1741a7b..7727841 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -95,8 +95,9 @@ void Path_RoundedComposite::Add(const Frame& F_base_point) {
 		if ((PI - alpha) < eps) {
 			throw Error_MotionPlanning_Not_Feasible(4);
 		}
-		if (alpha < eps) {
+		if (alpha < 2 * epsilon) {
 			// no rounding is done in the case of parallel line segments
+			// (Path_Circle cannot be made for an angle below epsilon)
 			comp->Add(
 					new Path_Line(F_base_start, F_base_via, orient->Clone(),
 							eqradius));
@@ -121,16 +122,22 @@ void Path_RoundedComposite::Add(const Frame& F_base_point) {
 			Frame F_base_circlestart = line1->Pos(line1->LengthToS(abdist - d));
 			Frame F_base_circleend = line2->Pos(line2->LengthToS(d));
 			// end of circle segment, beginning of next line
-			Vector V_base_t = ab * (ab * bc);
+			// (from unit vectors: Normalize() takes short vectors for zero)
+			Vector V_base_t = (ab / abdist) * ((ab / abdist) * (bc / bcdist));
 			V_base_t.Normalize();
-			comp->Add(
-					new Path_Line(F_base_start, F_base_circlestart,
-							orient->Clone(), eqradius));
-			comp->Add(
-					new Path_Circle(F_base_circlestart,
-							F_base_circlestart.p - V_base_t * radius,
-							F_base_circleend.p, F_base_circleend.M, alpha,
-							orient->Clone(), eqradius));
+			// both parts are made before the path changes: Path_Circle can throw
+			scoped_ptr < Path
+					> line(
+							new Path_Line(F_base_start, F_base_circlestart,
+									orient->Clone(), eqradius));
+			scoped_ptr < Path
+					> circle(
+							new Path_Circle(F_base_circlestart,
+									F_base_circlestart.p - V_base_t * radius,
+									F_base_circleend.p, F_base_circleend.M, alpha,
+									orient->Clone(), eqradius));
+			comp->Add(line.release());
+			comp->Add(circle.release());
 			// shift for next line
 			F_base_start = F_base_circleend; // end of the circle segment
 			F_base_via = F_base_point;
-- 
2.43.0


From e5d57055d3b5651f4f7ca04c4373869c3f41b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:54 +0000
Subject: [PATCH 62/67] fix: Trajectory_Segment: release its parts when the
 duration is refused

---
 orocos_kdl/src/trajectory_segment.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/trajectory_segment.cpp b/orocos_kdl/src/trajectory_segment.cpp
index f0090e8..f8ee51a 100644
--- a/orocos_kdl/src/trajectory_segment.cpp
+++ b/orocos_kdl/src/trajectory_segment.cpp
@@ -56,7 +56,17 @@ Trajectory_Segment::Trajectory_Segment(Path* _geom, VelocityProfile* _motprof, d
 	motprof(_motprof),geom(_geom), aggregate(_aggregate)
 {
     // the duration was specified so assume motprof not yet set.
-    motprof->SetProfileDuration(0, geom->PathLength(), _duration);
+    try {
+        motprof->SetProfileDuration(0, geom->PathLength(), _duration);
+    } catch (...) {
+        // the destructor does not run: release what was handed over
+        if (aggregate)
+            {
+                delete motprof;
+                delete geom;
+            }
+        throw;
+    }
 }
 
 
-- 
2.43.0


From 508d8af7edbc124b00a23cafd5b6813758de9323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:52 +0000
Subject: [PATCH 63/67] fix: velocity profiles and composite paths: rounding
 does not lead beyond the end

---
 orocos_kdl/src/path_composite.cpp           |  5 +++--
 orocos_kdl/src/velocityprofile_trap.cpp     | 12 +++++++++---
 orocos_kdl/src/velocityprofile_traphalf.cpp | 11 ++++++++---
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/orocos_kdl/src/path_composite.cpp b/orocos_kdl/src/path_composite.cpp
index d4c74e6..93da0c8 100644
--- a/orocos_kdl/src/path_composite.cpp
+++ b/orocos_kdl/src/path_composite.cpp
@@ -54,8 +54,9 @@ namespace KDL {
 // you probably want to use the cached_index variable
 double Path_Composite::Lookup(double s) const
 {
-	assert(s>=-1e-12);
-	assert(s<=pathlength+1e-12);
+	// up to rounding
+	assert(s>=-1e-12*(1+pathlength));
+	assert(s<=pathlength+1e-12*(1+pathlength));
 	if ( (cached_starts <=s) && ( s <= cached_ends) ) {
 		return s - cached_starts;
 	}
diff --git a/orocos_kdl/src/velocityprofile_trap.cpp b/orocos_kdl/src/velocityprofile_trap.cpp
index a6a7e4e..03e9a8d 100644
--- a/orocos_kdl/src/velocityprofile_trap.cpp
+++ b/orocos_kdl/src/velocityprofile_trap.cpp
@@ -42,6 +42,7 @@
 
 //#include "error.h"
 #include "velocityprofile_trap.hpp"
+#include <algorithm>
 
 namespace KDL {
 
@@ -136,15 +137,20 @@ double VelocityProfile_Trap::Duration() const {
 	return duration;
 }
 
+// rounding of the polynomials must not lead beyond the start or the end
+static inline double within(double pos,double from,double to) {
+	return from < to ? std::min(std::max(pos,from),to) : std::min(std::max(pos,to),from);
+}
+
 double VelocityProfile_Trap::Pos(double time) const {
 	if (time < 0) {
 		return startpos;
 	} else if (time<t1) {
-		return a1+time*(a2+a3*time);
+		return within(a1+time*(a2+a3*time),startpos,endpos);
 	} else if (time<t2) {
-		return b1+time*(b2+b3*time);
+		return within(b1+time*(b2+b3*time),startpos,endpos);
 	} else if (time<=duration) {
-		return c1+time*(c2+c3*time);
+		return within(c1+time*(c2+c3*time),startpos,endpos);
 	} else {
 		return endpos;
 	}
diff --git a/orocos_kdl/src/velocityprofile_traphalf.cpp b/orocos_kdl/src/velocityprofile_traphalf.cpp
index 0d1993e..5317d28 100644
--- a/orocos_kdl/src/velocityprofile_traphalf.cpp
+++ b/orocos_kdl/src/velocityprofile_traphalf.cpp
@@ -150,15 +150,20 @@ double VelocityProfile_TrapHalf::Duration() const {
 	return duration;
 }
 
+// rounding of the polynomials must not lead beyond the start or the end
+static inline double within(double pos,double from,double to) {
+	return from < to ? std::min(std::max(pos,from),to) : std::min(std::max(pos,to),from);
+}
+
 double VelocityProfile_TrapHalf::Pos(double time) const {
 	if (time < 0) {
 		return startpos;
 	} else if (time<t1) {
-		return a1+time*(a2+a3*time);
+		return within(a1+time*(a2+a3*time),startpos,endpos);
 	} else if (time<t2) {
-		return b1+time*(b2+b3*time);
+		return within(b1+time*(b2+b3*time),startpos,endpos);
 	} else if (time<=duration) {
-		return c1+time*(c2+c3*time);
+		return within(c1+time*(c2+c3*time),startpos,endpos);
 	} else {
 		return endpos;
 	}
-- 
2.43.0


From 6925e7e6ac094b3e99045ddfa7f075188c874aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:06 +0000
Subject: [PATCH 64/67] fix: ChainHdSolver_Vereshchagin: fixed joints have no
 coordinate and move nothing

---
 orocos_kdl/src/chainhdsolver_vereshchagin.cpp | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
index 030d7d6..a3058a0 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
@@ -88,18 +88,22 @@ void ChainHdSolver_Vereshchagin::initial_upwards_sweep(const JntArray &q, const
         //Calculate segment properties: X,S,vj,cj
         const Segment& segment = chain.getSegment(i);
         segment_info& s = results[i + 1];
+        //A fixed joint has no coordinate
+        const bool moving = segment.getJoint().getType() != Joint::Fixed;
+        const double q_ = moving ? q(j) : 0.0;
+        const double qdot_ = moving ? qdot(j) : 0.0;
         //The pose between the joint root and the segment tip (tip expressed in joint root coordinates)
-        s.F = segment.pose(q(j)); //X pose of each link in link coord system
+        s.F = segment.pose(q_); //X pose of each link in link coord system
 
         F_total = F_total * s.F; //X pose of the each link in root coord system
         s.F_base = F_total; //X pose of the each link in root coord system for getter functions
 
         //The velocity due to the joint motion of the segment expressed in the segments reference frame (tip)
-        Twist vj = s.F.M.Inverse(segment.twist(q(j), qdot(j))); //XDot of each link
+        Twist vj = s.F.M.Inverse(segment.twist(q_, qdot_)); //XDot of each link
         //Twist aj = s.F.M.Inverse(segment.twist(q(j), qdotdot(j))); //XDotDot of each link
 
         //The unit velocity due to the joint motion of the segment expressed in the segments reference frame (tip)
-        s.Z = s.F.M.Inverse(segment.twist(q(j), 1.0));
+        s.Z = s.F.M.Inverse(segment.twist(q_, 1.0));
         //Put Z in the joint root reference frame:
         s.Z = s.F * s.Z;
 
@@ -128,7 +132,7 @@ void ChainHdSolver_Vereshchagin::initial_upwards_sweep(const JntArray &q, const
         //external forces are taken into account through s.U.
         Wrench FextLocal = F_total.M.Inverse() * f_ext[i];
         s.U = s.v * (s.H * s.v) - FextLocal; //f_ext[i];
-        if (segment.getJoint().getType() != Joint::Fixed)
+        if (moving)
             j++;
     }
 
@@ -237,7 +241,7 @@ void ChainHdSolver_Vereshchagin::downwards_sweep(const Jacobian& alfa, const Jnt
             if (chain.getSegment(i - 1).getJoint().getType() != Joint::Fixed)
                 s.D = chain.getSegment(i - 1).getJoint().getInertia() + dot(s.Z, s.PZ);
             else
-                s.D = dot(s.Z, s.PZ);
+                s.D = 1.0; // Z and PZ are zero: nothing is projected on a fixed joint
 
             s.PC = s.P * s.C;
 
@@ -247,7 +251,9 @@ void ChainHdSolver_Vereshchagin::downwards_sweep(const Jacobian& alfa, const Jnt
 
             //projection of coriolis and centrepital forces into joint subspace (0 0 Z)
             s.totalBias = -dot(s.Z, s.R + s.PC);
-            s.u = ff_torques(j) + s.totalBias;
+            s.u = s.totalBias;
+            if (chain.getSegment(i - 1).getJoint().getType() != Joint::Fixed)
+                s.u += ff_torques(j);
 
             //Matrix form of Z, put rotations above translations
             Vector6d vZ;
@@ -316,6 +322,15 @@ void ChainHdSolver_Vereshchagin::final_upwards_sweep(JntArray &q_dotdot, JntArra
             a_p = results[i - 1].acc;
         }
 
+        //A fixed joint moves nothing: its segment accelerates with the previous one
+        if (chain.getSegment(i - 1).getJoint().getType() == Joint::Fixed)
+        {
+            s.constAccComp = 0.0;
+            s.nullspaceAccComp = 0.0;
+            s.acc = s.F.Inverse(a_p + s.C);
+            continue;
+        }
+
         //The contribution of the constraint forces at segment i
         Vector6d tmp = s.E*nu;
         Wrench constraint_force = Wrench(Vector(tmp(3), tmp(4), tmp(5)),
@@ -342,8 +357,7 @@ void ChainHdSolver_Vereshchagin::final_upwards_sweep(JntArray &q_dotdot, JntArra
         q_dotdot(j) = (s.nullspaceAccComp + parentAccComp + s.constAccComp);
         // Returns segment's spatial acceleration in link distal-tip coordinates. For use needs to be transformed
         s.acc = s.F.Inverse(a_p + s.Z * q_dotdot(j) + s.C);
-        if (chain.getSegment(i - 1).getJoint().getType() != Joint::Fixed)
-            j++;
+        j++;
     }
 }
 
-- 
2.43.0


From 636eb94a43a625344711d22a6f51fd4fb04c4cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:15 +0000
Subject: [PATCH 65/67] fix: posrandom of a frame draws positive coordinates

---
 orocos_kdl/src/frames.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/frames.inl b/orocos_kdl/src/frames.inl
index d2d15e9..e680a02 100644
--- a/orocos_kdl/src/frames.inl
+++ b/orocos_kdl/src/frames.inl
@@ -1265,8 +1265,8 @@ IMETHOD void posrandom(Rotation& R) {
 }
 
 IMETHOD void posrandom(Frame& F) {
-	random(F.M);
-	random(F.p);
+	posrandom(F.M);
+	posrandom(F.p);
 }
 
 
-- 
2.43.0


From 119c158c8e74d7665968fa55b1428de48cfe4bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:12 +0000
Subject: [PATCH 66/67] fix: Error_IO: the type that is given is kept

---
 orocos_kdl/src/utilities/error.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/utilities/error.h b/orocos_kdl/src/utilities/error.h
index 785fa51..3363868 100644
--- a/orocos_kdl/src/utilities/error.h
+++ b/orocos_kdl/src/utilities/error.h
@@ -70,7 +70,7 @@ class Error_IO : public Error {
 	std::string msg;
 	int typenr;
 public:
-	Error_IO(const std::string& _msg="Unspecified I/O Error",int typenr=0):msg(_msg) {}
+	Error_IO(const std::string& _msg="Unspecified I/O Error",int _typenr=0):msg(_msg),typenr(_typenr) {}
     virtual const char* Description() const {return msg.c_str();}
     virtual int GetType() const {return typenr;}
 };
-- 
2.43.0


From c3ad3b7d4eedd997c56eb9c46e598f91d703da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:14 +0000
Subject: [PATCH 67/67] fix: Tree::getSubTree: the result may be the tree
 itself

---
 orocos_kdl/src/tree.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 6e9daf0..699f65d 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -181,9 +181,12 @@ bool Tree::getSubTree(const std::string& segment_name, Tree& tree) const
   SegmentMap::const_iterator root = segments.find(segment_name);
   if (root == segments.end())
     return false;
-  //init the tree, segment_name is the new root.
-  tree = Tree(root->first);
-  return tree.addTreeRecursive(root, segment_name);
+  //init a new tree, segment_name is the new root. The result may be this tree itself.
+  Tree subtree(root->first);
+  if (!subtree.addTreeRecursive(root, root->first))
+    return false;
+  tree = subtree;
+  return true;
 }
 
 }//end of namespace
-- 
2.43.0

