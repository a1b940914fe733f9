From 6dfdf4a9e147205440990876b9b617a3caca39e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 01/56] fix: RotationVel::RotY builds its rotation about Y

---
 orocos_kdl/src/framevel.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/framevel.inl b/orocos_kdl/src/framevel.inl
index 05aceb0..f43195b 100644
--- a/orocos_kdl/src/framevel.inl
+++ b/orocos_kdl/src/framevel.inl
@@ -214,7 +214,7 @@ void RotationVel::DoRotY(const doubleVel& angle) {
     R.DoRotY(angle.t);
 }
 RotationVel RotationVel::RotY(const doubleVel& angle) {
-    return RotationVel(Rotation::RotX(angle.t),Vector(0,angle.grad,0));
+    return RotationVel(Rotation::RotY(angle.t),Vector(0,angle.grad,0));
 }
 
 void RotationVel::DoRotZ(const doubleVel& angle) {
-- 
2.43.0


From b6c2f9ed3060b0cce38618462799f6e95b1d2552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 02/56] fix: diff of FrameVel returns translation in vel and
 rotation in rot

---
 orocos_kdl/src/framevel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/framevel.hpp b/orocos_kdl/src/framevel.hpp
index b84e69c..92ec580 100644
--- a/orocos_kdl/src/framevel.hpp
+++ b/orocos_kdl/src/framevel.hpp
@@ -359,7 +359,7 @@ IMETHOD RotationVel addDelta(const RotationVel& a,const VectorVel&da,double dt=1
 }
 
 IMETHOD TwistVel diff(const FrameVel& a,const FrameVel& b,double dt=1.0) {
-	return TwistVel(diff(a.M,b.M,dt),diff(a.p,b.p,dt));
+	return TwistVel(diff(a.p,b.p,dt),diff(a.M,b.M,dt));
 }
 
 IMETHOD FrameVel addDelta(const FrameVel& a,const TwistVel& da,double dt=1.0) {
-- 
2.43.0


From 677439cba2f860df096fbcf32ff3dea85acc439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 03/56] fix: Rall2d operator*= uses the operands' values from
 before the update

---
 orocos_kdl/src/utilities/rall2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/utilities/rall2d.h b/orocos_kdl/src/utilities/rall2d.h
index fd6f6f9..fdd9c87 100644
--- a/orocos_kdl/src/utilities/rall2d.h
+++ b/orocos_kdl/src/utilities/rall2d.h
@@ -114,9 +114,9 @@ class Rall2d
 
         INLINE Rall2d<T,V,S>& operator *=(const Rall2d<T,V,S>& rhs)
             {
-            t *= rhs.t;
-            d  = (d*rhs.t+t*rhs.d);
             dd = (dd*rhs.t+S(2)*d*rhs.d+t*rhs.dd);
+            d  = (d*rhs.t+t*rhs.d);
+            t *= rhs.t;
             return *this;
             }
 
-- 
2.43.0


From fc7c627bb61e7032c897c7ce6cea5a47e35c4c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:57 +0000
Subject: [PATCH 04/56] fix: VelocityProfile_Rectangular limits the speed in
 the negative direction too

---
 orocos_kdl/src/velocityprofile_rect.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_rect.cpp b/orocos_kdl/src/velocityprofile_rect.cpp
index 7992c1e..fd503b1 100644
--- a/orocos_kdl/src/velocityprofile_rect.cpp
+++ b/orocos_kdl/src/velocityprofile_rect.cpp
@@ -81,8 +81,8 @@ void VelocityProfile_Rectangular::
     if ( diff != 0 )
         {
             v    = diff/duration;
-            if (v > maxvel || duration==0 ) // safety.
-                v=maxvel;
+            if (v > maxvel || v < -maxvel || duration==0 ) // safety.
+                v=(diff>0)?maxvel:-maxvel;
             p    = pos1;               // start pos
             d    = diff/v;
         }
-- 
2.43.0


From 492fa9d1a56901e12eb8ec9e9cde26ec9d2334b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:57 +0000
Subject: [PATCH 05/56] fix: VelocityProfile_TrapHalf respects the maximum
 acceleration on short paths

---
 orocos_kdl/src/velocityprofile_traphalf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_traphalf.cpp b/orocos_kdl/src/velocityprofile_traphalf.cpp
index 05ff180..4e015ae 100644
--- a/orocos_kdl/src/velocityprofile_traphalf.cpp
+++ b/orocos_kdl/src/velocityprofile_traphalf.cpp
@@ -107,8 +107,10 @@ void VelocityProfile_TrapHalf::SetProfileDuration(
 		return;
 
 	double s        = sign(endpos-startpos);
-	double tmp      = 2.0*s*(endpos-startpos)/maxvel;
-	double v        = s*maxvel;
+	// maxvel may not be obtainable, as in SetProfile
+	double vel      = std::min(maxvel, sqrt(2.0*s*(endpos-startpos)*maxacc));
+	double tmp      = 2.0*s*(endpos-startpos)/vel;
+	double v        = s*vel;
 	duration        = newduration;
 	if (starting) {
 		if (tmp > duration) {
-- 
2.43.0


From 982f16b4fad4a82d2df3df78a4ef7b984d639269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:57 +0000
Subject: [PATCH 06/56] fix: clones of velocity profiles keep the planned
 profile

---
 orocos_kdl/src/velocityprofile_rect.hpp     | 4 +---
 orocos_kdl/src/velocityprofile_trap.cpp     | 4 +---
 orocos_kdl/src/velocityprofile_traphalf.cpp | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_rect.hpp b/orocos_kdl/src/velocityprofile_rect.hpp
index 4482779..4f049b9 100644
--- a/orocos_kdl/src/velocityprofile_rect.hpp
+++ b/orocos_kdl/src/velocityprofile_rect.hpp
@@ -76,9 +76,7 @@ namespace KDL {
 		virtual double Acc(double time) const;
 		virtual void Write(std::ostream& os) const;
 		virtual VelocityProfile* Clone() const{
-			VelocityProfile_Rectangular* res =  new VelocityProfile_Rectangular(maxvel);
-			res->SetProfileDuration( p, p+v*d, d );
-			return res;
+			return new VelocityProfile_Rectangular(*this);
 		}
 		// returns copy of current VelocityProfile object. (virtual constructor)
 		virtual ~VelocityProfile_Rectangular() {}
diff --git a/orocos_kdl/src/velocityprofile_trap.cpp b/orocos_kdl/src/velocityprofile_trap.cpp
index 1bee674..aab4167 100644
--- a/orocos_kdl/src/velocityprofile_trap.cpp
+++ b/orocos_kdl/src/velocityprofile_trap.cpp
@@ -178,9 +178,7 @@ double VelocityProfile_Trap::Acc(double time) const {
 }
 
 VelocityProfile* VelocityProfile_Trap::Clone() const {
-	VelocityProfile_Trap* res =  new VelocityProfile_Trap(maxvel,maxacc);
-	res->SetProfileDuration( this->startpos, this->endpos, this->duration );
-	return res;
+	return new VelocityProfile_Trap(*this);
 }
 
 VelocityProfile_Trap::~VelocityProfile_Trap() {}
diff --git a/orocos_kdl/src/velocityprofile_traphalf.cpp b/orocos_kdl/src/velocityprofile_traphalf.cpp
index 4e015ae..735d2b8 100644
--- a/orocos_kdl/src/velocityprofile_traphalf.cpp
+++ b/orocos_kdl/src/velocityprofile_traphalf.cpp
@@ -185,9 +185,7 @@ double VelocityProfile_TrapHalf::Acc(double time) const {
 }
 
 VelocityProfile* VelocityProfile_TrapHalf::Clone() const {
-	VelocityProfile_TrapHalf* res =  new VelocityProfile_TrapHalf(maxvel,maxacc, starting);
-	res->SetProfileDuration( this->startpos, this->endpos, this->duration );
-	return res;
+	return new VelocityProfile_TrapHalf(*this);
 }
 
 VelocityProfile_TrapHalf::~VelocityProfile_TrapHalf() {}
-- 
2.43.0


From 46c62281cc09a4bda4f8812dc0a60051210dd874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 07/56] fix: Path_Circle::Clone describes the same circle

The clone was given the direction of the circle's y axis instead of a point
in its plane, the opening angle in degrees instead of radians, and a copy of
the rotational interpolation that nobody deletes when it is not aggregated.
---
 orocos_kdl/src/path_circle.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/path_circle.cpp b/orocos_kdl/src/path_circle.cpp
index 53261e8..da0aaa3 100644
--- a/orocos_kdl/src/path_circle.cpp
+++ b/orocos_kdl/src/path_circle.cpp
@@ -141,10 +141,10 @@ Path* Path_Circle::Clone() {
 	return new Path_Circle(
 		Pos(0),
 		F_base_center.p,
-		F_base_center.M.UnitY(),
+		F_base_center*Vector(0,radius,0),
 		orient->Pos(pathlength*scalerot),
-		pathlength*scalelin/radius/deg2rad,
-		orient->Clone(),
+		pathlength*scalelin/radius,
+		aggregate ? orient->Clone() : orient,
 		eqradius,
         aggregate
 	);
-- 
2.43.0


From ad7f9ee7681752d8c03697d96842a6fa2488c489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 08/56] fix: Path_Circle::Write writes a point in the plane of
 the circle

Path::Read takes a point there, not the direction of the y axis.
---
 orocos_kdl/src/path_circle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path_circle.cpp b/orocos_kdl/src/path_circle.cpp
index da0aaa3..72b10da 100644
--- a/orocos_kdl/src/path_circle.cpp
+++ b/orocos_kdl/src/path_circle.cpp
@@ -159,7 +159,7 @@ void Path_Circle::Write(std::ostream& os) {
 	os << "CIRCLE[ ";
 	os << "  " << Pos(0) << std::endl;
 	os << "  " << F_base_center.p << std::endl;
-	os << "  " << F_base_center.M.UnitY() << std::endl;
+	os << "  " << F_base_center*Vector(0,radius,0) << std::endl;
 	os << "  " << orient->Pos(pathlength*scalerot) << std::endl;
 	os << "  " << pathlength*scalelin/radius/deg2rad << std::endl;
 	os << "  ";orient->Write(os);
-- 
2.43.0


From 2bbe448f348337970dd21e98ca8da4542a315787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:38 +0000
Subject: [PATCH 09/56] fix: clones of RotationalInterpolation_SingleAxis keep
 the interpolation

Clone() returned an object with uninitialised rotations and angle.
---
 orocos_kdl/src/rotational_interpolation_sa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/rotational_interpolation_sa.cpp b/orocos_kdl/src/rotational_interpolation_sa.cpp
index 6b5a56b..1580d0b 100644
--- a/orocos_kdl/src/rotational_interpolation_sa.cpp
+++ b/orocos_kdl/src/rotational_interpolation_sa.cpp
@@ -81,7 +81,7 @@ RotationalInterpolation_SingleAxis::~RotationalInterpolation_SingleAxis() {
 
 
 RotationalInterpolation* RotationalInterpolation_SingleAxis::Clone() const {
-	return new RotationalInterpolation_SingleAxis();
+	return new RotationalInterpolation_SingleAxis(*this);
 }
 
 }
-- 
2.43.0


From bdca9f17bf89421f2906dcd3010fbf793c785138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:38 +0000
Subject: [PATCH 10/56] fix: Path_RoundedComposite::Clone keeps the pending
 points

Adding to or finishing a clone of a path under construction continued from
the origin instead of the last added points.
---
 orocos_kdl/src/path_roundedcomposite.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 2916505..7906b9a 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -196,7 +196,10 @@ Path_RoundedComposite::~Path_RoundedComposite() {
 
 
 Path* Path_RoundedComposite::Clone() {
-	return new Path_RoundedComposite(static_cast<Path_Composite*>(comp->Clone()),radius,eqradius,orient->Clone(), true, nrofpoints);
+	Path_RoundedComposite* clone = new Path_RoundedComposite(static_cast<Path_Composite*>(comp->Clone()),radius,eqradius,orient->Clone(), true, nrofpoints);
+	clone->F_base_start = F_base_start;
+	clone->F_base_via = F_base_via;
+	return clone;
 }
 
 }
-- 
2.43.0


From d01daa3b9da91f7bbf106e1ea4698435ca3990b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:38 +0000
Subject: [PATCH 11/56] fix: clones of composite and cyclic paths own the paths
 cloned for them

A clone of a path that does not aggregate its parts leaked the copies.
---
 orocos_kdl/src/path_composite.cpp     | 2 +-
 orocos_kdl/src/path_cyclic_closed.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/path_composite.cpp b/orocos_kdl/src/path_composite.cpp
index c93f5a2..d93a853 100644
--- a/orocos_kdl/src/path_composite.cpp
+++ b/orocos_kdl/src/path_composite.cpp
@@ -113,7 +113,7 @@ Twist Path_Composite::Acc(double s,double sd,double sdd) const {
 Path* Path_Composite::Clone()  {
 	scoped_ptr<Path_Composite> comp( new Path_Composite() );
 	for (unsigned int i = 0; i < dv.size(); ++i) {
-		comp->Add(gv[i].first->Clone(), gv[i].second);
+		comp->Add(gv[i].first->Clone(), true);
 	}
 	return comp.release();
 }
diff --git a/orocos_kdl/src/path_cyclic_closed.cpp b/orocos_kdl/src/path_cyclic_closed.cpp
index fa5c65f..2f2190e 100644
--- a/orocos_kdl/src/path_cyclic_closed.cpp
+++ b/orocos_kdl/src/path_cyclic_closed.cpp
@@ -76,7 +76,7 @@ Path_Cyclic_Closed::~Path_Cyclic_Closed() {
 }
 
 Path* Path_Cyclic_Closed::Clone() {
-	return new Path_Cyclic_Closed(geom->Clone(),times, aggregate);
+	return new Path_Cyclic_Closed(geom->Clone(),times, true);
 }
 
 void Path_Cyclic_Closed::Write(std::ostream& os)  {
-- 
2.43.0


From fe0c9a84a44067529c4f94eedad337f044db2695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:38 +0000
Subject: [PATCH 12/56] fix: Trajectory_Composite::Destroy resets the duration

Duration() and the boundaries of segments added later still counted the
destroyed segments.
---
 orocos_kdl/src/trajectory_composite.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orocos_kdl/src/trajectory_composite.cpp b/orocos_kdl/src/trajectory_composite.cpp
index 1583608..76821ef 100644
--- a/orocos_kdl/src/trajectory_composite.cpp
+++ b/orocos_kdl/src/trajectory_composite.cpp
@@ -98,6 +98,7 @@ namespace KDL {
         }
         vt.erase(vt.begin(),vt.end());
         vd.erase(vd.begin(),vd.end());
+        duration = 0.0;
     }
 
     Trajectory_Composite::~Trajectory_Composite() {
-- 
2.43.0


From 1b8871ac0dcf8db3a8b9ae8d359998d2b64da481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:23 +0000
Subject: [PATCH 13/56] fix: Path_RoundedComposite rounds corners between short
 segments correctly

The normal was normalised after its length was scaled with the lengths of the
segments, so that for segments of some millimetres it was taken for zero and
the arc left the path.
---
 orocos_kdl/src/path_roundedcomposite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 7906b9a..21de9ed 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -117,7 +117,8 @@ void Path_RoundedComposite::Add(const Frame& F_base_point) {
 			Frame F_base_circlestart = line1->Pos(line1->LengthToS(abdist - d));
 			Frame F_base_circleend = line2->Pos(line2->LengthToS(d));
 			// end of circle segment, beginning of next line
-			Vector V_base_t = ab * (ab * bc);
+			// use unit vectors, such that short segments are not taken for parallel ones
+			Vector V_base_t = (ab / abdist) * ((ab / abdist) * (bc / bcdist));
 			V_base_t.Normalize();
 			comp->Add(
 					new Path_Line(F_base_start, F_base_circlestart,
-- 
2.43.0


From 4f9d3f8cf7f86ed4764ce90cb682bc89648886e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:03 +0000
Subject: [PATCH 14/56] fix: ChainJntToJacDotSolver checks the size of the
 joint velocities

Velocities of the wrong size were read out of bounds.
---
 orocos_kdl/src/chainjnttojacdotsolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainjnttojacdotsolver.cpp b/orocos_kdl/src/chainjnttojacdotsolver.cpp
index 9bb7e11..c693544 100644
--- a/orocos_kdl/src/chainjnttojacdotsolver.cpp
+++ b/orocos_kdl/src/chainjnttojacdotsolver.cpp
@@ -76,7 +76,7 @@ int ChainJntToJacDotSolver::JntToJacDot(const JntArrayVel& q_in, Jacobian& jdot,
     //Initialize Jacobian to zero since only segmentNr columns are computed
     SetToZero(jdot) ;
 
-    if(q_in.q.rows()!=chain.getNrOfJoints() || nr_of_unlocked_joints_!=jdot.columns())
+    if(q_in.q.rows()!=chain.getNrOfJoints() || q_in.qdot.rows()!=chain.getNrOfJoints() || nr_of_unlocked_joints_!=jdot.columns())
         return (error = E_SIZE_MISMATCH);
     else if(segmentNr>chain.getNrOfSegments())
         return (error = E_OUT_OF_RANGE);
-- 
2.43.0


From 373b8dbbe918c901f061e9b4f28026eba57e26ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:24 +0000
Subject: [PATCH 15/56] fix: ChainJntToJacDotSolver with locked joints

The columns of locked joints were written past the end of the result, the
other columns went to the wrong place, and the Twist overload always failed
with E_SIZE_MISMATCH; setLockedJoints did not record its error.
---
 orocos_kdl/src/chainjnttojacdotsolver.cpp | 33 +++++++++++++++--------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/orocos_kdl/src/chainjnttojacdotsolver.cpp b/orocos_kdl/src/chainjnttojacdotsolver.cpp
index c693544..bd260dc 100644
--- a/orocos_kdl/src/chainjnttojacdotsolver.cpp
+++ b/orocos_kdl/src/chainjnttojacdotsolver.cpp
@@ -48,7 +48,6 @@ void ChainJntToJacDotSolver::updateInternalDataStructures() {
     this->setLockedJoints(locked_joints_);
     jac_solver_.updateInternalDataStructures();
     jac_.resize(chain.getNrOfJoints());
-    jac_dot_.resize(chain.getNrOfJoints());
     fk_solver_.updateInternalDataStructures();
 }
 
@@ -58,7 +57,14 @@ int ChainJntToJacDotSolver::JntToJacDot(const JntArrayVel& q_in, Twist& jac_dot_
     if (error != E_NOERROR) {
         return error;
     }
-    MultiplyJacobian(jac_dot_,q_in.qdot,jac_dot_q_dot);
+    // jac_dot_ has columns for the joints that are not locked only
+    SetToZero(jac_dot_q_dot);
+    int k=0;
+    for(unsigned int j=0;j<chain.getNrOfJoints();++j)
+    {
+        if(!locked_joints_[j])
+            jac_dot_q_dot += jac_dot_.getColumn(k++)*q_in.qdot(j);
+    }
     return (error = E_NOERROR);
 }
 
@@ -102,20 +108,24 @@ int ChainJntToJacDotSolver::JntToJacDot(const JntArrayVel& q_in, Jacobian& jdot,
     }
 
     // Let's compute Jdot in the corresponding representation
+    unsigned int joint_nr=0;
     int k=0;
     for(unsigned int i=0;i<segmentNr;++i)
     {
         //Only increase joint nr if the segment has a joint
         if(chain.getSegment(i).getJoint().getType()!=Joint::Fixed) {
-
-            for(unsigned int j=0;j<chain.getNrOfJoints();++j)
-            {
-                // Column J is the sum of all partial derivatives  ref (41)
-                if(!locked_joints_[j])
-                    jac_dot_k_ += getPartialDerivative(jac_,j,k,representation_) * q_in.qdot(j);
+            //Only put the column inside if the joint is not locked
+            if(!locked_joints_[joint_nr]) {
+                for(unsigned int j=0;j<chain.getNrOfJoints();++j)
+                {
+                    // Column J is the sum of all partial derivatives  ref (41)
+                    if(!locked_joints_[j])
+                        jac_dot_k_ += getPartialDerivative(jac_,j,joint_nr,representation_) * q_in.qdot(j);
+                }
+                jdot.setColumn(k++,jac_dot_k_);
+                SetToZero(jac_dot_k_);
             }
-            jdot.setColumn(k++,jac_dot_k_);
-            SetToZero(jac_dot_k_);
+            joint_nr++;
         }
     }
 
@@ -227,13 +237,14 @@ void ChainJntToJacDotSolver::setRepresentation(const int& representation)
 int ChainJntToJacDotSolver::setLockedJoints(const std::vector<bool>& locked_joints)
 {
     if(locked_joints.size()!=locked_joints_.size())
-        return E_SIZE_MISMATCH;
+        return (error = E_SIZE_MISMATCH);
     locked_joints_=locked_joints;
     nr_of_unlocked_joints_=0;
     for(unsigned int i=0;i<locked_joints_.size();i++){
         if(!locked_joints_[i])
             nr_of_unlocked_joints_++;
     }
+    jac_dot_.resize(nr_of_unlocked_joints_);
 
     return (error = E_NOERROR);
 }
-- 
2.43.0


From 44fcc2c8976e2bd75a9ab2b9950977dcc48e2c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 16/56] fix: RK4Integrator weighs the intermediate velocities
 of the right stage

---
 orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
index 6e01c49..41947b3 100644
--- a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
+++ b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
@@ -109,16 +109,16 @@ namespace KDL{
         for (unsigned int i=0; i<nj; ++i)
         {
             q_temp(i) = q(i) + q_dot_temp(i)*dt/2.0;
-            q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt/2.0;
             dq(i) += 2.0*q_dot_temp(i);
+            q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt/2.0;
             dq_dot(i) += 2.0*q_dotdot(i);
         }
         fdsolver.CartToJnt(q_temp, q_dot_temp, torques, f_ext, q_dotdot);
         for (unsigned int i=0; i<nj; ++i)
         {
             q_temp(i) = q(i) + q_dot_temp(i)*dt;
-            q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt;
             dq(i) += 2.0*q_dot_temp(i);
+            q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt;
             dq_dot(i) += 2.0*q_dotdot(i);
         }
         fdsolver.CartToJnt(q_temp, q_dot_temp, torques, f_ext, q_dotdot);
-- 
2.43.0


From 5436ba1106431e88de80ee9eaf5635d4954c4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:02 +0000
Subject: [PATCH 17/56] fix: ChainFdSolver_RNE::updateInternalDataStructures
 updates the solvers and buffers it uses

---
 .../src/chainfdsolver_recursive_newton_euler.cpp       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
index 41947b3..82e69e6 100644
--- a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
+++ b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
@@ -46,6 +46,16 @@ namespace KDL{
     void ChainFdSolver_RNE::updateInternalDataStructures() {
         nj = chain.getNrOfJoints();
         ns = chain.getNrOfSegments();
+        DynSolver.updateInternalDataStructures();
+        IdSolver.updateInternalDataStructures();
+        H.resize(nj);
+        Tzeroacc.resize(nj);
+        H_eig.resize(nj,nj);
+        Tzeroacc_eig.resize(nj);
+        L_eig.resize(nj,nj);
+        D_eig.resize(nj);
+        r_eig.resize(nj);
+        acc_eig.resize(nj);
     }
 
     int ChainFdSolver_RNE::CartToJnt(const JntArray &q, const JntArray &q_dot, const JntArray &torques, const Wrenches& f_ext, JntArray &q_dotdot)
-- 
2.43.0


From e8f5c836cdc93fc09712d791e6d8411b6903666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:16 +0000
Subject: [PATCH 18/56] fix: forward kinematics to all segments records its
 error code

---
 orocos_kdl/src/chainfksolverpos_recursive.cpp | 10 +++++-----
 orocos_kdl/src/chainfksolvervel_recursive.cpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/orocos_kdl/src/chainfksolverpos_recursive.cpp b/orocos_kdl/src/chainfksolverpos_recursive.cpp
index 487569c..c0e016d 100644
--- a/orocos_kdl/src/chainfksolverpos_recursive.cpp
+++ b/orocos_kdl/src/chainfksolverpos_recursive.cpp
@@ -65,13 +65,13 @@ namespace KDL {
             segmentNr = seg_nr;
 
         if(q_in.rows()!=chain.getNrOfJoints())
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr>chain.getNrOfSegments())
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else if(p_out.size() != segmentNr)
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr == 0)
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else{
             int j=0;
             // Initialization
@@ -89,7 +89,7 @@ namespace KDL {
                     p_out[i] = p_out[i-1]*chain.getSegment(i).pose(0.0);
                 }
             }
-            return 0;
+            return (error = E_NOERROR);
         }
     }
 
diff --git a/orocos_kdl/src/chainfksolvervel_recursive.cpp b/orocos_kdl/src/chainfksolvervel_recursive.cpp
index 8957db0..ec485f1 100644
--- a/orocos_kdl/src/chainfksolvervel_recursive.cpp
+++ b/orocos_kdl/src/chainfksolvervel_recursive.cpp
@@ -76,13 +76,13 @@ namespace KDL
 
 
         if(!(in.q.rows()==chain.getNrOfJoints()&&in.qdot.rows()==chain.getNrOfJoints()))
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr>chain.getNrOfSegments())
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else if(out.size()!=segmentNr)
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr == 0)
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else{
             int j=0;
             // Initialization
@@ -105,7 +105,7 @@ namespace KDL
                                      chain.getSegment(i).twist(0.0,0.0));
                 }
             }
-            return 0;
+            return (error = E_NOERROR);
         }
     }
 }
-- 
2.43.0


From bc894c05444ef489a155185fc9249b8b3a9c5674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:16 +0000
Subject: [PATCH 19/56] fix: ChainIkSolverPos_NR records success

---
 orocos_kdl/src/chainiksolverpos_nr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolverpos_nr.cpp b/orocos_kdl/src/chainiksolverpos_nr.cpp
index 79747bf..8d7f12d 100644
--- a/orocos_kdl/src/chainiksolverpos_nr.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr.cpp
@@ -62,7 +62,7 @@ namespace KDL
             Add(q_out,delta_q,q_out);
             if(Equal(delta_twist,Twist::Zero(),eps))
                 // converged, but possibly with a degraded solution
-                return (rc > E_NOERROR ? E_DEGRADED : E_NOERROR);
+                return (error = (rc > E_NOERROR ? E_DEGRADED : E_NOERROR));
         }
         return (error = E_MAX_ITERATIONS_EXCEEDED);        // failed to converge
     }
-- 
2.43.0


From b1b7c4c6099c2ae627737fea1dbc53860ca01b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:16 +0000
Subject: [PATCH 20/56] fix: ChainIkSolverPos_NR_JL without limits allows
 negative joint positions

---
 orocos_kdl/src/chainiksolverpos_nr_jl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
index bb30c45..15f5689 100644
--- a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
@@ -46,13 +46,13 @@ namespace KDL
          delta_q(nj),
          maxiter(_maxiter),eps(_eps)
     {
-        q_min.data.setConstant(std::numeric_limits<double>::min());
+        q_min.data.setConstant(std::numeric_limits<double>::lowest());
         q_max.data.setConstant(std::numeric_limits<double>::max());
     }
 
     void ChainIkSolverPos_NR_JL::updateInternalDataStructures() {
        nj = chain.getNrOfJoints();
-       q_min.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,std::numeric_limits<double>::min()));
+       q_min.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,std::numeric_limits<double>::lowest()));
        q_max.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,std::numeric_limits<double>::max()));
        iksolver.updateInternalDataStructures();
        fksolver.updateInternalDataStructures();
-- 
2.43.0


From 1ae778e5ebf43806bbb9b947cf4318bfee2ff1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:16 +0000
Subject: [PATCH 21/56] fix: ChainIkSolverVel_wdls records that velocities of
 frames are not implemented

---
 orocos_kdl/src/chainiksolvervel_wdls.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.hpp b/orocos_kdl/src/chainiksolvervel_wdls.hpp
index dbba19b..006f004 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.hpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.hpp
@@ -102,7 +102,7 @@ namespace KDL
          * not (yet) implemented.
          *
          */
-        virtual int CartToJnt(const JntArray& /*q_init*/, const FrameVel& /*v_in*/, JntArrayVel& /*q_out*/){return -1;};
+        virtual int CartToJnt(const JntArray& /*q_init*/, const FrameVel& /*v_in*/, JntArrayVel& /*q_out*/){return (error = E_NOT_IMPLEMENTED);};
 
         /**
          * Set the joint space weighting matrix
-- 
2.43.0


From 25c1d08527ad14e88d245062eed1de83e60385fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:16 +0000
Subject: [PATCH 22/56] fix: ChainIkSolverVel_pinv_nso::setAlpha records
 success

---
 orocos_kdl/src/chainiksolvervel_pinv_nso.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
index 1b04795..3038171 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
@@ -182,7 +182,7 @@ namespace KDL
     int ChainIkSolverVel_pinv_nso::setAlpha(const double _alpha)
     {
       alpha = _alpha;
-      return 0;
+      return (error = E_NOERROR);
     }
 
 
-- 
2.43.0


From 24983ed18c56f3396db0e93a8d9db33add5c697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:16 +0000
Subject: [PATCH 23/56] fix: ChainIkSolverVel_pinv_nso does not write beyond
 its buffer for chains of less than six joints

---
 orocos_kdl/src/chainiksolvervel_pinv_nso.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
index 3038171..0673fda 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
@@ -113,11 +113,12 @@ namespace KDL
         for (i = 0; i < nj; ++i) {
             Sinv(i) = fabs(S(i))<eps ? 0.0 : 1.0/S(i);
         }
+        Eigen::Matrix<double,6,1> v_in_eigen;
         for (i = 0; i < 6; ++i) {
-            tmp(i) = v_in(i);
+            v_in_eigen(i) = v_in(i);
         }
 
-        qdot_out.data = V * Sinv.asDiagonal() * U.transpose() * tmp.head(6);
+        qdot_out.data = V * Sinv.asDiagonal() * U.transpose() * v_in_eigen;
 
         // Now onto NULL space
         // Given the cost function g, and the current joints q, desired joints qd, and weights w:
-- 
2.43.0


From f2958a875dab6e089a998ad3ff90b433a3548364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:16 +0000
Subject: [PATCH 24/56] fix: ChainIkSolverVel_wdls does not read beyond U for
 chains of less than six joints

---
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index a2f37ae..43f1363 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -151,7 +151,7 @@ namespace KDL
         }
 
         //Pre-multiply U and V by the task space and joint space weighting matrix respectively
-        tmp_ts = weight_ts.lazyProduct(U.topLeftCorner(6,6));
+        tmp_ts.leftCols(nj < 6 ? nj : 6) = weight_ts.lazyProduct(U.leftCols(nj < 6 ? nj : 6));
         tmp_js = weight_js.lazyProduct(V);
 
         // Minimum of six largest singular values of J is S(5) if number of joints >=6 and 0 for <6
-- 
2.43.0


From 7260667a68794e1820445e2d425aa2b6c3b1172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:16 +0000
Subject: [PATCH 25/56] fix: ChainIkSolverVel_wdls rejects weights of the wrong
 shape

---
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index 43f1363..6a758f6 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -77,14 +77,14 @@ namespace KDL
         if(nj != chain.getNrOfJoints())
             return (error = E_NOT_UP_TO_DATE);
 
-        if (Mq.size() != weight_js.size())
+        if (Mq.rows() != weight_js.rows() || Mq.cols() != weight_js.cols())
             return (error = E_SIZE_MISMATCH);
         weight_js = Mq;
         return (error = E_NOERROR);
     }
     
     int ChainIkSolverVel_wdls::setWeightTS(const Eigen::MatrixXd& Mx){
-        if (Mx.size() != weight_ts.size())
+        if (Mx.rows() != weight_ts.rows() || Mx.cols() != weight_ts.cols())
             return (error = E_SIZE_MISMATCH);
         weight_ts = Mx;
         return (error = E_NOERROR);
-- 
2.43.0


From dd70a03432b15224e4506dd4c481241870afd594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:07 +0000
Subject: [PATCH 26/56] fix: ChainIkSolverPos_LMA reports difference and
 singular values of a pose that is already reached

---
 orocos_kdl/src/chainiksolverpos_lma.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolverpos_lma.cpp b/orocos_kdl/src/chainiksolverpos_lma.cpp
index 71d2ab5..ab6abf5 100644
--- a/orocos_kdl/src/chainiksolverpos_lma.cpp
+++ b/orocos_kdl/src/chainiksolverpos_lma.cpp
@@ -210,9 +210,11 @@ int ChainIkSolverPos_LMA::CartToJnt(const KDL::JntArray& q_init, const KDL::Fram
 	if (delta_pos_norm<eps) {
 		lastNrOfIter    =0 ;
 		Twist_to_Eigen( diff( T_base_head, T_base_goal), delta_pos );
-		lastDifference  = delta_pos.norm();
+		lastDifference  = delta_pos_norm;
 		lastTransDiff   = delta_pos.topRows(3).norm();
 		lastRotDiff     = delta_pos.bottomRows(3).norm();
+		compute_jacobian(q);
+		jac = L.asDiagonal()*jac;
 		svd.compute(jac);
 		original_Aii    = svd.singularValues();
 		lastSV          = svd.singularValues();
-- 
2.43.0


From bfb7f00fdc33dce53b5f4ff9ec924ade96678a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:07 +0000
Subject: [PATCH 27/56] fix: ChainIkSolverPos_LMA reports unweighted
 differences when it runs out of iterations

---
 orocos_kdl/src/chainiksolverpos_lma.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_kdl/src/chainiksolverpos_lma.cpp b/orocos_kdl/src/chainiksolverpos_lma.cpp
index ab6abf5..bccefbd 100644
--- a/orocos_kdl/src/chainiksolverpos_lma.cpp
+++ b/orocos_kdl/src/chainiksolverpos_lma.cpp
@@ -306,6 +306,8 @@ int ChainIkSolverPos_LMA::CartToJnt(const KDL::JntArray& q_init, const KDL::Fram
 			v      = 2*v;
 		}
 	}
+	compute_fwdpos(q);
+	Twist_to_Eigen( diff( T_base_head, T_base_goal), delta_pos );
 	lastDifference = delta_pos_norm;
 	lastTransDiff  = delta_pos.topRows(3).norm();
 	lastRotDiff    = delta_pos.bottomRows(3).norm();
-- 
2.43.0


From 19092b288b3123fcf3a3840fe13bb8312a45f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 28/56] fix: ChainDynParam records the result of JntToCoriolis
 and JntToGravity

---
 orocos_kdl/src/chaindynparam.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chaindynparam.cpp b/orocos_kdl/src/chaindynparam.cpp
index f9f9fb9..4a3b63e 100644
--- a/orocos_kdl/src/chaindynparam.cpp
+++ b/orocos_kdl/src/chaindynparam.cpp
@@ -131,7 +131,7 @@ namespace KDL {
 
 
 	//the calculation of coriolis matrix C
-	return chainidsolver_coriolis.CartToJnt(q, q_dot, jntarraynull, wrenchnull, coriolis);
+	return (error = chainidsolver_coriolis.CartToJnt(q, q_dot, jntarraynull, wrenchnull, coriolis));
 
     }
 
@@ -143,7 +143,7 @@ namespace KDL {
 
 	SetToZero(jntarraynull);
 	//the calculation of coriolis matrix C
-	return chainidsolver_gravity.CartToJnt(q, jntarraynull, jntarraynull, wrenchnull, gravity);
+	return (error = chainidsolver_gravity.CartToJnt(q, jntarraynull, jntarraynull, wrenchnull, gravity));
     }
 
     ChainDynParam::~ChainDynParam()
-- 
2.43.0


From 8ed79fab82d26758d89246a875fe282d2e6e2c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 29/56] fix: ChainExternalWrenchEstimator::setInitialMomentum
 reports that the chain has changed

---
 orocos_kdl/src/chainexternalwrenchestimator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_kdl/src/chainexternalwrenchestimator.cpp b/orocos_kdl/src/chainexternalwrenchestimator.cpp
index 8c9d752..b34db31 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.cpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.cpp
@@ -74,6 +74,8 @@ void ChainExternalWrenchEstimator::updateInternalDataStructures()
 int ChainExternalWrenchEstimator::setInitialMomentum(const JntArray &joint_position, const JntArray &joint_velocity)
 {
     // Check sizes first
+    if (nj != CHAIN.getNrOfJoints() || ns != CHAIN.getNrOfSegments())
+        return (error = E_NOT_UP_TO_DATE);
     if (joint_position.rows() != nj || joint_velocity.rows() != nj)
         return (error = E_SIZE_MISMATCH);
 
-- 
2.43.0


From aea69e4e7561b23328ab912be00fbb984e066c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 30/56] fix: ChainExternalWrenchEstimator does not take the
 first inertia after setInitialMomentum for a change of inertia

---
 orocos_kdl/src/chainexternalwrenchestimator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainexternalwrenchestimator.cpp b/orocos_kdl/src/chainexternalwrenchestimator.cpp
index b34db31..754a847 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.cpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.cpp
@@ -47,7 +47,7 @@ void ChainExternalWrenchEstimator::updateInternalDataStructures()
     nj = CHAIN.getNrOfJoints();
     ns = CHAIN.getNrOfSegments();
     jnt_mass_matrix.resize(nj);
-    previous_jnt_mass_matrix.resize(nj);
+    previous_jnt_mass_matrix.data.conservativeResizeLike(Eigen::MatrixXd::Zero(nj, nj));
     jnt_mass_matrix_dot.resize(nj);
     initial_jnt_momentum.resize(nj);
     estimated_momentum_integral.resize(nj);
@@ -85,6 +85,9 @@ int ChainExternalWrenchEstimator::setInitialMomentum(const JntArray &joint_posit
 
     initial_jnt_momentum.data = jnt_mass_matrix.data * joint_velocity.data;
 
+    // The change of inertia is counted from here on
+    previous_jnt_mass_matrix.data = jnt_mass_matrix.data;
+
     // Reset data because of the new momentum offset
     SetToZero(estimated_momentum_integral);
     SetToZero(filtered_estimated_ext_torque);
-- 
2.43.0


From bcf02b7a2c35108300e09663933a43fd82f8870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:33 +0000
Subject: [PATCH 31/56] fix: ChainHdSolver_Vereshchagin reports that the number
 of joints of the chain has changed

---
 orocos_kdl/src/chainhdsolver_vereshchagin.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
index 75f58e9..030d7d6 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
@@ -56,8 +56,7 @@ void ChainHdSolver_Vereshchagin::updateInternalDataStructures() {
 int ChainHdSolver_Vereshchagin::CartToJnt(const JntArray &q, const JntArray &q_dot, JntArray &q_dotdot, const Jacobian& alfa, const JntArray& beta, const Wrenches& f_ext, const JntArray &ff_torques, JntArray &constraint_torques)
 {
     //Check sizes always
-    nj = chain.getNrOfJoints();
-    if(ns != chain.getNrOfSegments())
+    if(nj != chain.getNrOfJoints() || ns != chain.getNrOfSegments())
         return (error = E_NOT_UP_TO_DATE);
     if (q.rows() != nj || q_dot.rows() != nj || q_dotdot.rows() != nj || ff_torques.rows() != nj || constraint_torques.rows() != nj || f_ext.size() != ns)
         return (error = E_SIZE_MISMATCH);
-- 
2.43.0


From fb9e698bbdce4359ed23ee181562f28cc4aac91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:54 +0000
Subject: [PATCH 32/56] fix: ChainHdSolver_Vereshchagin reports a failed
 singular value decomposition

---
 orocos_kdl/src/chainhdsolver_vereshchagin.cpp | 10 +++++++---
 orocos_kdl/src/chainhdsolver_vereshchagin.hpp |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
index 030d7d6..dc4c061 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
@@ -67,7 +67,8 @@ int ChainHdSolver_Vereshchagin::CartToJnt(const JntArray &q, const JntArray &q_d
     //do an inward recursion for inertia, articulated bias forces and constraints
     this->downwards_sweep(alfa, ff_torques);
     //Solve for the constraint forces
-    this->constraint_calculation(beta);
+    if (this->constraint_calculation(beta) != 0)
+        return (error = E_SVD_FAILED);
     //do an upward recursion to propagate the result and compute final output
     this->final_upwards_sweep(q_dotdot, constraint_torques);
     return (error = E_NOERROR);
@@ -260,7 +261,7 @@ void ChainHdSolver_Vereshchagin::downwards_sweep(const Jacobian& alfa, const Jnt
     }
 }
 
-void ChainHdSolver_Vereshchagin::constraint_calculation(const JntArray& beta)
+int ChainHdSolver_Vereshchagin::constraint_calculation(const JntArray& beta)
 {
     //equation f) nu = M_0_inverse*(beta_N - E0_tilde`*acc0 - G0)
     //M_0_inverse, always nc*nc symmetric matrix
@@ -272,7 +273,9 @@ void ChainHdSolver_Vereshchagin::constraint_calculation(const JntArray& beta)
     //ToDo: Need to check ill conditions
 
     //M_0_inverse=results[0].M.inverse();
-    svd_eigen_HH(results[0].M, Um, Sm, Vm, tmpm);
+    const int svd_result = svd_eigen_HH(results[0].M, Um, Sm, Vm, tmpm);
+    if (svd_result != 0)
+        return svd_result;
     //truncated svd, what would sdls, dls physically mean?
     for (unsigned int i = 0; i < nc; i++)
         if (Sm(i) < 1e-14)
@@ -293,6 +296,7 @@ void ChainHdSolver_Vereshchagin::constraint_calculation(const JntArray& beta)
 
     //equation f) nu = M_0_inverse*(beta_N - E0_tilde`*acc0 - G0)
     nu.noalias() = M_0_inverse * nu_sum;
+    return 0;
 }
 
 void ChainHdSolver_Vereshchagin::final_upwards_sweep(JntArray &q_dotdot, JntArray &constraint_torques)
diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.hpp b/orocos_kdl/src/chainhdsolver_vereshchagin.hpp
index 86be647..ea78304 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.hpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.hpp
@@ -455,7 +455,7 @@ private:
      *  This method calculates constraint force magnitudes.
      *
      */
-    void constraint_calculation(const JntArray& beta);
+    int constraint_calculation(const JntArray& beta);
     /**
      *  This method puts all acceleration contributions (constraint, bias, nullspace and parent accelerations) together.
      *
-- 
2.43.0


From 797e6526b7fbb285a4a191a64b0193bfcc133b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:42 +0000
Subject: [PATCH 33/56] fix: ChainExternalWrenchEstimator keeps its estimation
 gain when its chain had no joints at first

---
 orocos_kdl/src/chainexternalwrenchestimator.cpp | 3 ++-
 orocos_kdl/src/chainexternalwrenchestimator.hpp | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainexternalwrenchestimator.cpp b/orocos_kdl/src/chainexternalwrenchestimator.cpp
index 754a847..42703e5 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.cpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.cpp
@@ -25,6 +25,7 @@ namespace KDL {
 ChainExternalWrenchEstimator::ChainExternalWrenchEstimator(const Chain &chain, const Vector &gravity, const double sample_frequency, const double estimation_gain, const double filter_constant, const double eps, const int maxiter) :
     CHAIN(chain),
     DT_SEC(1.0 / sample_frequency), FILTER_CONST(filter_constant),
+    initial_estimation_gain(estimation_gain),
     svd_eps(eps),
     svd_maxiter(maxiter),
     nj(CHAIN.getNrOfJoints()), ns(CHAIN.getNrOfSegments()),
@@ -64,7 +65,7 @@ void ChainExternalWrenchEstimator::updateInternalDataStructures()
     S.conservativeResizeLike(Eigen::VectorXd::Zero(6));
     S_inv.conservativeResizeLike(Eigen::VectorXd::Zero(6));
     tmp.conservativeResizeLike(Eigen::VectorXd::Zero(6));
-    ESTIMATION_GAIN.conservativeResizeLike(Eigen::VectorXd::Constant(nj, ESTIMATION_GAIN(0)));
+    ESTIMATION_GAIN.conservativeResizeLike(Eigen::VectorXd::Constant(nj, initial_estimation_gain));
     dynparam_solver.updateInternalDataStructures();
     jacobian_solver.updateInternalDataStructures();
     fk_pos_solver.updateInternalDataStructures();
diff --git a/orocos_kdl/src/chainexternalwrenchestimator.hpp b/orocos_kdl/src/chainexternalwrenchestimator.hpp
index 3147a5d..fdc2dfa 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.hpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.hpp
@@ -110,6 +110,7 @@ namespace KDL {
     private:
         const Chain &CHAIN;
         const double DT_SEC, FILTER_CONST;
+        const double initial_estimation_gain;
         double svd_eps;
         int svd_maxiter;
         unsigned int nj, ns;
-- 
2.43.0


From 06b3977442468d30264d4f7a7e0c6b85af1d96bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:01 +0000
Subject: [PATCH 34/56] fix: copies of a Tree keep the joint numbers of the
 original

---
 orocos_kdl/src/tree.cpp | 12 ++++++++++++
 orocos_kdl/src/tree.hpp |  1 +
 2 files changed, 13 insertions(+)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 70151e6..38608a6 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -38,6 +38,7 @@ Tree::Tree(const Tree& in) {
 
     segments.insert(make_pair(root_name, TreeElement::Root(root_name)));
     addTree(in, root_name);
+    copyJointNumbers(in);
 }
 
 Tree& Tree::operator=(const Tree& in) {
@@ -48,9 +49,20 @@ Tree& Tree::operator=(const Tree& in) {
 
     segments.insert(make_pair(in.root_name, TreeElement::Root(root_name)));
     this->addTree(in, root_name);
+    copyJointNumbers(in);
     return *this;
 }
 
+void Tree::copyJointNumbers(const Tree& in) {
+    //addTree numbers the joints in the order it visits them, which need not be
+    //the order in which they were added to in
+    for (SegmentMap::const_iterator s = in.segments.begin(); s != in.segments.end(); ++s) {
+        SegmentMap::iterator copy = segments.find(s->first);
+        if (copy != segments.end())
+            GetTreeElementQNr(copy->second) = GetTreeElementQNr(s->second);
+    }
+}
+
 bool Tree::addSegment(const Segment& segment, const std::string& hook_name) {
     SegmentMap::iterator parent = segments.find(hook_name);
     //check if parent exists
diff --git a/orocos_kdl/src/tree.hpp b/orocos_kdl/src/tree.hpp
index fd664e8..90b96b6 100644
--- a/orocos_kdl/src/tree.hpp
+++ b/orocos_kdl/src/tree.hpp
@@ -106,6 +106,7 @@ namespace KDL
         std::string root_name;
 
         bool addTreeRecursive(SegmentMap::const_iterator root, const std::string& hook_name);
+        void copyJointNumbers(const Tree& in);
 
     public:
         /**
-- 
2.43.0


From b889ef29fe05f0bfce79f77578c5439965ecf4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:01 +0000
Subject: [PATCH 35/56] fix: assigning a Tree to itself does not empty it

---
 orocos_kdl/src/tree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 38608a6..013b17e 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -42,6 +42,8 @@ Tree::Tree(const Tree& in) {
 }
 
 Tree& Tree::operator=(const Tree& in) {
+    if (this == &in)
+        return *this;
     segments.clear();
     nrOfSegments = 0;
     nrOfJoints = 0;
-- 
2.43.0


From cfc17aaf565a8890dd25d2a46642dffa9271ecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:01 +0000
Subject: [PATCH 36/56] fix: Tree::getChain keeps scale, offset and inertia of
 the joints it inverts

---
 orocos_kdl/src/tree.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 013b17e..17f1265 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -162,9 +162,11 @@ bool Tree::getChain(const std::string& chain_root, const std::string& chain_tip,
         Frame f_tip = seg.pose(0.0).Inverse();
         Joint jnt = seg.getJoint();
         if (jnt.getType() == Joint::RotX || jnt.getType() == Joint::RotY || jnt.getType() == Joint::RotZ || jnt.getType() == Joint::RotAxis)
-            jnt = Joint(jnt.getName(), f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::RotAxis);
+            jnt = Joint(jnt.getName(), f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::RotAxis,
+                        jnt.getScale(), jnt.getOffset(), jnt.getInertia(), jnt.getDamping(), jnt.getStiffness());
         else if (jnt.getType() == Joint::TransX || jnt.getType() == Joint::TransY || jnt.getType() == Joint::TransZ || jnt.getType() == Joint::TransAxis)
-            jnt = Joint(jnt.getName(),f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::TransAxis);
+            jnt = Joint(jnt.getName(),f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::TransAxis,
+                        jnt.getScale(), jnt.getOffset(), jnt.getInertia(), jnt.getDamping(), jnt.getStiffness());
         chain.addSegment(Segment(GetTreeElementSegment(getSegment(parents_chain_root[s+1])->second).getName(),
                                  jnt, f_tip, GetTreeElementSegment(getSegment(parents_chain_root[s+1])->second).getInertia()));
     }
-- 
2.43.0


From 1056e28fcc22ed91c96009249753179911a04977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:01 +0000
Subject: [PATCH 37/56] fix: TreeFkSolverPos_recursive reads no joint value for
 fixed segments

---
 orocos_kdl/src/treefksolverpos_recursive.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/treefksolverpos_recursive.cpp b/orocos_kdl/src/treefksolverpos_recursive.cpp
index b919b95..e9bfaea 100644
--- a/orocos_kdl/src/treefksolverpos_recursive.cpp
+++ b/orocos_kdl/src/treefksolverpos_recursive.cpp
@@ -49,7 +49,10 @@ namespace KDL {
 	{
 		//gets the frame for the current element (segment)
         const TreeElementType& currentElement = it->second;
-        Frame currentFrame = GetTreeElementSegment(currentElement).pose(q_in(GetTreeElementQNr(currentElement)));
+        const Segment& segment = GetTreeElementSegment(currentElement);
+        //fixed segments (and the root) have no joint value
+        double q = segment.getJoint().getType() != Joint::Fixed ? q_in(GetTreeElementQNr(currentElement)) : 0.0;
+        Frame currentFrame = segment.pose(q);
 
 		SegmentMap::const_iterator rootIterator = tree.getRootSegment();
 		if(it == rootIterator){
-- 
2.43.0


From b4c2f37987b419d40508049bd475e6057d3f50de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:01 +0000
Subject: [PATCH 38/56] fix: TreeJntToJacSolver reads no joint value for fixed
 segments

---
 orocos_kdl/src/treejnttojacsolver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/treejnttojacsolver.cpp b/orocos_kdl/src/treejnttojacsolver.cpp
index 0afb4d1..2f29426 100644
--- a/orocos_kdl/src/treejnttojacsolver.cpp
+++ b/orocos_kdl/src/treejnttojacsolver.cpp
@@ -42,12 +42,14 @@ int TreeJntToJacSolver::JntToJac(const JntArray& q_in, Jacobian& jac, const std:
         unsigned int q_nr = GetTreeElementQNr(it->second);
         
         //get the pose of the segment:
-        Frame T_local = GetTreeElementSegment(it->second).pose(q_in(q_nr));
+        //(fixed segments have no joint value)
+        bool fixed = GetTreeElementSegment(it->second).getJoint().getType() == Joint::Fixed;
+        Frame T_local = GetTreeElementSegment(it->second).pose(fixed ? 0.0 : q_in(q_nr));
         //calculate new T_end:
         T_total = T_local * T_total;
         
         //get the twist of the segment:
-        if (GetTreeElementSegment(it->second).getJoint().getType() != Joint::Fixed) {
+        if (!fixed) {
             Twist t_local = GetTreeElementSegment(it->second).twist(q_in(q_nr), 1.0);
             //transform the endpoint of the local twist to the global endpoint:
             t_local = t_local.RefPoint(T_total.p - T_local.p);
-- 
2.43.0


From 34b571039d76876eb1d3891be8bcc4801970ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:50 +0000
Subject: [PATCH 39/56] fix: TreeIkSolverVel_wdls without damping returned NaN
 for redundant and singular trees

---
 orocos_kdl/src/treeiksolvervel_wdls.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/treeiksolvervel_wdls.cpp b/orocos_kdl/src/treeiksolvervel_wdls.cpp
index 87665db..415023c 100644
--- a/orocos_kdl/src/treeiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/treeiksolvervel_wdls.cpp
@@ -95,7 +95,9 @@ namespace KDL {
                 else
                     sum += 0.0;
             }
-            tmp( i) = sum * ((S(i) / (S(i) * S(i) + lambda * lambda)));
+            //without damping the directions that cannot be moved get no velocity
+            double damped = S(i) * S(i) + lambda * lambda;
+            tmp( i) = damped > 0 ? sum * (S(i) / damped) : 0.0;
         }
         
         // x = Lx^-1*V*tmp + x
-- 
2.43.0


From ab73ed5537169c6e4346818cdcfb2d8f33c67135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:50 +0000
Subject: [PATCH 40/56] fix: TreeIkSolverVel_wdls reports endpoints without a
 twist instead of reading past the end of the map

---
 orocos_kdl/src/treeiksolvervel_wdls.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/orocos_kdl/src/treeiksolvervel_wdls.cpp b/orocos_kdl/src/treeiksolvervel_wdls.cpp
index 415023c..2e64ae2 100644
--- a/orocos_kdl/src/treeiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/treeiksolvervel_wdls.cpp
@@ -52,6 +52,11 @@ namespace KDL {
             if (jacobians.find(v_it->first) == jacobians.end())
                 return -2;
         }
+        //and if there is a twist for all of our endpoints
+        for (Jacobians::const_iterator jac_it = jacobians.begin(); jac_it != jacobians.end(); ++jac_it) {
+            if (v_in.find(jac_it->first) == v_in.end())
+                return -2;
+        }
         //Check if q_in has the right size
         if (q_in.rows() != tree.getNrOfJoints())
             return -1;
-- 
2.43.0


From 6c156b8aee7094afcfe46655d6cdb3970af8514d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:50 +0000
Subject: [PATCH 41/56] fix: TreeIkSolverPos_NR_JL does not follow endpoints of
 earlier calls

---
 orocos_kdl/src/treeiksolverpos_nr_jl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
index 2b0b1a3..19803af 100644
--- a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
@@ -47,6 +47,10 @@ namespace KDL {
             if(frames.find(f_des_it->first)==frames.end())
                 return -2;
         
+        //Endpoints that are not in p_in (any more) are to stay where they are
+        for(Twists::iterator delta_twist=delta_twists.begin();delta_twist!=delta_twists.end();++delta_twist)
+            SetToZero(delta_twist->second);
+
         unsigned int k=0;
         while(++k <= maxiter) {
             for (Frames::const_iterator f_des_it=p_in.begin();f_des_it!=p_in.end();++f_des_it){
-- 
2.43.0


From dfe95c14e517459fe5d0c6e00edc3598793d00bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:50 +0000
Subject: [PATCH 42/56] fix: TreeIkSolverPos_NR_JL reports failures of the
 forward kinematics

---
 orocos_kdl/src/treeiksolverpos_nr_jl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
index 19803af..0604907 100644
--- a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
@@ -58,7 +58,9 @@ namespace KDL {
                 Frames::iterator f_it = frames.find(f_des_it->first);
                 Twists::iterator delta_twist = delta_twists.find(f_des_it->first);
                 
-                fksolver.JntToCart(q_out, f_it->second, f_it->first);
+                int ret = fksolver.JntToCart(q_out, f_it->second, f_it->first);
+                if (ret < 0)
+                    return ret;
                 delta_twist->second = diff(f_it->second, f_des_it->second);
             }
             double res = iksolver.CartToJnt(q_out, delta_twists, delta_q);
-- 
2.43.0


From 852b739990e3bb72152ea6b7964aedd19820cf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:50 +0000
Subject: [PATCH 43/56] fix: TreeIkSolverPos_Online does not follow endpoints
 of earlier calls

---
 orocos_kdl/src/treeiksolverpos_online.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orocos_kdl/src/treeiksolverpos_online.cpp b/orocos_kdl/src/treeiksolverpos_online.cpp
index 594c3a0..6d783fc 100644
--- a/orocos_kdl/src/treeiksolverpos_online.cpp
+++ b/orocos_kdl/src/treeiksolverpos_online.cpp
@@ -66,6 +66,10 @@ double TreeIkSolverPos_Online::CartToJnt(const JntArray& q_in, const Frames& p_i
     if(frames_.find(f_des_it->first)==frames_.end())
       return -2;
 
+  // Endpoints that are not in p_in (any more) are to stay where they are
+  for(Twists::iterator delta_twists_it=delta_twists_.begin();delta_twists_it!=delta_twists_.end();++delta_twists_it)
+    SetToZero(delta_twists_it->second);
+
   for (Frames::const_iterator f_des_it=p_in.begin();f_des_it!=p_in.end();++f_des_it)
   {
     // Get all iterators for this endpoint
-- 
2.43.0


From a710b19cb94252df403b9caf117a477157a8cc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:50 +0000
Subject: [PATCH 44/56] fix: TreeIkSolverPos_Online reports failures of the
 forward kinematics

---
 orocos_kdl/src/treeiksolverpos_online.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/treeiksolverpos_online.cpp b/orocos_kdl/src/treeiksolverpos_online.cpp
index 6d783fc..06aa72b 100644
--- a/orocos_kdl/src/treeiksolverpos_online.cpp
+++ b/orocos_kdl/src/treeiksolverpos_online.cpp
@@ -76,7 +76,9 @@ double TreeIkSolverPos_Online::CartToJnt(const JntArray& q_in, const Frames& p_i
     Frames::iterator f_it = frames_.find(f_des_it->first);
     Twists::iterator delta_twists_it = delta_twists_.find(f_des_it->first);
 
-    fksolver_.JntToCart(q_out, f_it->second, f_it->first);
+    int ret = fksolver_.JntToCart(q_out, f_it->second, f_it->first);
+    if (ret < 0)
+      return ret;
     twist_ = diff(f_it->second, f_des_it->second);
 
     // Checks, if the twist (twist_) exceeds the maximum translational and/or rotational velocity
-- 
2.43.0


From a98e83f6e3e839ac9610965dcda55be90c55a487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:50 +0000
Subject: [PATCH 45/56] fix: TreeIkSolverPos_Online scales by the biggest
 overshoot, not by the bigger velocity

---
 orocos_kdl/src/treeiksolverpos_online.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/orocos_kdl/src/treeiksolverpos_online.cpp b/orocos_kdl/src/treeiksolverpos_online.cpp
index 06aa72b..7dd8835 100644
--- a/orocos_kdl/src/treeiksolverpos_online.cpp
+++ b/orocos_kdl/src/treeiksolverpos_online.cpp
@@ -159,19 +159,15 @@ void TreeIkSolverPos_Online::enforceCartVelLimits()
   x_dot_trans = sqrt( pow(twist_.vel.x(), 2) + pow(twist_.vel.y(), 2) + pow(twist_.vel.z(), 2));
   x_dot_rot = sqrt( pow(twist_.rot.x(), 2) + pow(twist_.rot.y(), 2) + pow(twist_.rot.z(), 2));
 
-  if ( x_dot_trans > x_dot_trans_max_ || x_dot_rot > x_dot_rot_max_ )
-  {
-    if ( x_dot_trans > x_dot_rot )
-    {
-      twist_.vel = twist_.vel * ( x_dot_trans_max_ / x_dot_trans );
-      twist_.rot = twist_.rot * ( x_dot_trans_max_ / x_dot_trans );
-    }
-    else if ( x_dot_rot > x_dot_trans )
-    {
-      twist_.vel = twist_.vel * ( x_dot_rot_max_ / x_dot_rot );
-      twist_.rot = twist_.rot * ( x_dot_rot_max_ / x_dot_rot );
-    }
-  }
+  // scale by the biggest overshoot, so that both limits hold afterwards
+  double scale = 1.0;
+  if ( x_dot_trans > x_dot_trans_max_ )
+    scale = x_dot_trans_max_ / x_dot_trans;
+  if ( x_dot_rot > x_dot_rot_max_ && x_dot_rot_max_ / x_dot_rot < scale )
+    scale = x_dot_rot_max_ / x_dot_rot;
+
+  twist_.vel = twist_.vel * scale;
+  twist_.rot = twist_.rot * scale;
 }
 
 } // namespace
-- 
2.43.0


From 4c1e1c34ee75c4a88dadb92685652808931a1021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:56 +0000
Subject: [PATCH 46/56] fix: Rotation2::operator() returned the transposed
 rotation matrix

---
 orocos_kdl/src/frames.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/frames.inl b/orocos_kdl/src/frames.inl
index 8349ff1..40ed5e5 100644
--- a/orocos_kdl/src/frames.inl
+++ b/orocos_kdl/src/frames.inl
@@ -861,9 +861,9 @@ IMETHOD double Rotation2::operator()(int i,int j) const {
     FRAMES_CHECKI((0<=i)&&(i<=1)&&(0<=j)&&(j<=1));
     if (i==j) return c;
     if (i==0) 
-        return s;
-    else
         return -s;
+    else
+        return s;
 }
 
 
-- 
2.43.0


From 1085c7e26e4039c452112f5ff78ad95e5191cdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:56 +0000
Subject: [PATCH 47/56] fix: Vector::Set2DPlane discarded its result

---
 orocos_kdl/src/frames.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames.inl b/orocos_kdl/src/frames.inl
index 40ed5e5..d2d15e9 100644
--- a/orocos_kdl/src/frames.inl
+++ b/orocos_kdl/src/frames.inl
@@ -710,7 +710,7 @@ void Vector::Set2DPlane(const Frame& F_someframe_XY,const Vector2& v_XY)
 {
 Vector tmp_XY;
 tmp_XY.Set2DXY(v_XY);
-tmp_XY = F_someframe_XY*(tmp_XY);
+*this = F_someframe_XY*(tmp_XY);
 }
 
 
-- 
2.43.0


From cbccccdd90f2faf55fe44090b168ba63fe02ba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:56 +0000
Subject: [PATCH 48/56] fix: JntSpaceInertiaMatrix::resize left the elements
 uninitialised

---
 orocos_kdl/src/jntspaceinertiamatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/jntspaceinertiamatrix.cpp b/orocos_kdl/src/jntspaceinertiamatrix.cpp
index fb8a4fe..2969c3f 100644
--- a/orocos_kdl/src/jntspaceinertiamatrix.cpp
+++ b/orocos_kdl/src/jntspaceinertiamatrix.cpp
@@ -52,7 +52,7 @@ namespace KDL
 
     void JntSpaceInertiaMatrix::resize(unsigned int newSize)
     {
-        data.resize(newSize,newSize);
+        data.setZero(newSize,newSize);
     }
 
     double JntSpaceInertiaMatrix::operator()(unsigned int i,unsigned int j)const
-- 
2.43.0


From 03e37cea162b77cfa82d56fb2f3166090f955ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:56 +0000
Subject: [PATCH 49/56] fix: Multiply and Divide of JntArrayVel/JntArrayAcc
 were wrong with the source as destination

---
 orocos_kdl/src/jntarrayacc.cpp | 44 +++++++++++-----------------------
 orocos_kdl/src/jntarrayvel.cpp | 10 ++++----
 2 files changed, 18 insertions(+), 36 deletions(-)

diff --git a/orocos_kdl/src/jntarrayacc.cpp b/orocos_kdl/src/jntarrayacc.cpp
index 2d0949a..ef0483f 100644
--- a/orocos_kdl/src/jntarrayacc.cpp
+++ b/orocos_kdl/src/jntarrayacc.cpp
@@ -109,24 +109,16 @@ namespace KDL
     }
     void Multiply(const JntArrayAcc& src,const doubleVel& factor,JntArrayAcc& dest)
     {
-        Multiply(src.qdot,factor.grad*2,dest.qdot);
-        Multiply(src.qdotdot,factor.t,dest.qdotdot);
-        Add(dest.qdot,dest.qdotdot,dest.qdotdot);
-        Multiply(src.q,factor.grad,dest.q);
-        Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        //the highest derivative first: dest may be src
+        dest.qdotdot.data=src.qdotdot.data*factor.t+src.qdot.data*(factor.grad*2);
+        dest.qdot.data=src.qdot.data*factor.t+src.q.data*factor.grad;
         Multiply(src.q,factor.t,dest.q);
     }
     void Multiply(const JntArrayAcc& src,const doubleAcc& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,factor.dd,dest.q);
-        Multiply(src.qdot,factor.d*2,dest.qdot);
-        Multiply(src.qdotdot,factor.t,dest.qdotdot);
-        Add(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.d,dest.q);
-        Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        //the highest derivative first: dest may be src
+        dest.qdotdot.data=src.qdotdot.data*factor.t+src.qdot.data*(factor.d*2)+src.q.data*factor.dd;
+        dest.qdot.data=src.qdot.data*factor.t+src.q.data*factor.d;
         Multiply(src.q,factor.t,dest.q);
     }
 
@@ -138,26 +130,18 @@ namespace KDL
     }
     void Divide(const JntArrayAcc& src,const doubleVel& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,(2*factor.grad*factor.grad)/(factor.t*factor.t*factor.t),dest.q);
-        Multiply(src.qdot,(2*factor.grad)/(factor.t*factor.t),dest.qdot);
-        Divide(src.qdotdot,factor.t,dest.qdotdot);
-        Subtract(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.grad/(factor.t*factor.t),dest.q);
-        Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        //the highest derivative first: dest may be src
+        dest.qdotdot.data=src.qdotdot.data/factor.t-src.qdot.data*((2*factor.grad)/(factor.t*factor.t))
+            +src.q.data*((2*factor.grad*factor.grad)/(factor.t*factor.t*factor.t));
+        dest.qdot.data=src.qdot.data/factor.t-src.q.data*(factor.grad/(factor.t*factor.t));
         Divide(src.q,factor.t,dest.q);
     }
     void Divide(const JntArrayAcc& src,const doubleAcc& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,(2*factor.d*factor.d)/(factor.t*factor.t*factor.t)-factor.dd/(factor.t*factor.t),dest.q);
-        Multiply(src.qdot,(2*factor.d)/(factor.t*factor.t),dest.qdot);
-        Divide(src.qdotdot,factor.t,dest.qdotdot);
-        Subtract(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.d/(factor.t*factor.t),dest.q);
-        Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        //the highest derivative first: dest may be src
+        dest.qdotdot.data=src.qdotdot.data/factor.t-src.qdot.data*((2*factor.d)/(factor.t*factor.t))
+            +src.q.data*((2*factor.d*factor.d)/(factor.t*factor.t*factor.t)-factor.dd/(factor.t*factor.t));
+        dest.qdot.data=src.qdot.data/factor.t-src.q.data*(factor.d/(factor.t*factor.t));
         Divide(src.q,factor.t,dest.q);
     }
 
diff --git a/orocos_kdl/src/jntarrayvel.cpp b/orocos_kdl/src/jntarrayvel.cpp
index 2a14250..1c476f5 100644
--- a/orocos_kdl/src/jntarrayvel.cpp
+++ b/orocos_kdl/src/jntarrayvel.cpp
@@ -83,9 +83,8 @@ namespace KDL
     }
     void Multiply(const JntArrayVel& src,const doubleVel& factor,JntArrayVel& dest)
     {
-        Multiply(src.q,factor.grad,dest.q);
-        Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        //the highest derivative first: dest may be src
+        dest.qdot.data=src.qdot.data*factor.t+src.q.data*factor.grad;
         Multiply(src.q,factor.t,dest.q);
     }
 
@@ -96,9 +95,8 @@ namespace KDL
     }
     void Divide(const JntArrayVel& src,const doubleVel& factor,JntArrayVel& dest)
     {
-        Multiply(src.q,(factor.grad/factor.t/factor.t),dest.q);
-        Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        //the highest derivative first: dest may be src
+        dest.qdot.data=src.qdot.data/factor.t-src.q.data*(factor.grad/factor.t/factor.t);
         Divide(src.q,factor.t,dest.q);
     }
 
-- 
2.43.0


From 243962b67ef5aa0c3dd1258b73bad3b8ec4fe701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:06 +0000
Subject: [PATCH 50/56] fix: Chain: assigning a chain to itself keeps its
 segments

---
 orocos_kdl/src/chain.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_kdl/src/chain.cpp b/orocos_kdl/src/chain.cpp
index 43eb4f1..8fe3f1e 100644
--- a/orocos_kdl/src/chain.cpp
+++ b/orocos_kdl/src/chain.cpp
@@ -41,6 +41,8 @@ namespace KDL {
 
     Chain& Chain::operator=(const Chain& arg)
     {
+        if(this==&arg)
+            return *this;
         nrOfJoints=0;
         nrOfSegments=0;
         segments.resize(0);
-- 
2.43.0


From ff94795a5dfb6a909f93d5fe7b96f59b0d838133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:06 +0000
Subject: [PATCH 51/56] fix: Chain: addSegment of a segment of the chain itself
 read freed memory

---
 orocos_kdl/src/chain.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chain.cpp b/orocos_kdl/src/chain.cpp
index 8fe3f1e..306563f 100644
--- a/orocos_kdl/src/chain.cpp
+++ b/orocos_kdl/src/chain.cpp
@@ -56,7 +56,8 @@ namespace KDL {
     {
         segments.push_back(segment);
         nrOfSegments++;
-        if(segment.getJoint().getType()!=Joint::Fixed)
+        //segment may have been one of ours, moved by now
+        if(segments.back().getJoint().getType()!=Joint::Fixed)
             nrOfJoints++;
     }
 
-- 
2.43.0


From 7146c60c3d07986b0057205280ed00c589f424e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:06 +0000
Subject: [PATCH 52/56] fix: Chain: adding a chain to itself ends

---
 orocos_kdl/src/chain.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chain.cpp b/orocos_kdl/src/chain.cpp
index 306563f..132a83f 100644
--- a/orocos_kdl/src/chain.cpp
+++ b/orocos_kdl/src/chain.cpp
@@ -63,7 +63,9 @@ namespace KDL {
 
     void Chain::addChain(const Chain& chain)
     {
-        for(unsigned int i=0;i<chain.getNrOfSegments();i++)
+        //the number of segments grows if chain is this chain
+        const unsigned int nr=chain.getNrOfSegments();
+        for(unsigned int i=0;i<nr;i++)
             this->addSegment(chain.getSegment(i));
     }
 
-- 
2.43.0


From e59c26e456065985ec85e21bd00c14bdcf936acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:06 +0000
Subject: [PATCH 53/56] fix: Tree: getSubTree can put the subtree in the tree
 itself

---
 orocos_kdl/src/tree.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 17f1265..6f4f50b 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -185,8 +185,11 @@ bool Tree::getSubTree(const std::string& segment_name, Tree& tree) const
   if (root == segments.end())
     return false;
   //init the tree, segment_name is the new root.
-  tree = Tree(root->first);
-  return tree.addTreeRecursive(root, segment_name);
+  Tree subtree(root->first);
+  bool complete = subtree.addTreeRecursive(root, segment_name);
+  //tree may be this tree, so it is assigned last
+  tree = subtree;
+  return complete;
 }
 
 }//end of namespace
-- 
2.43.0


From b56621a9d428eca012b2484b4859f49ba88caf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:06 +0000
Subject: [PATCH 54/56] fix: Rotation2 read from a stream is assigned

---
 orocos_kdl/src/frames_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames_io.cpp b/orocos_kdl/src/frames_io.cpp
index 0af50bb..d72a9ed 100644
--- a/orocos_kdl/src/frames_io.cpp
+++ b/orocos_kdl/src/frames_io.cpp
@@ -294,7 +294,7 @@ std::istream& operator >> (std::istream& is,Rotation2& r)
     Eat(is,'[');
     double val;
     is >> val;
-    r.Rot(val*deg2rad);
+    r.SetRot(val*deg2rad);
     EatEnd(is,']');
     IOTracePop();
     return is;
-- 
2.43.0


From 64f24d4c953306e87b03d343e877e01a473d08af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:06 +0000
Subject: [PATCH 55/56] fix: EatWord wrote past the storage for words that do
 not fit

---
 orocos_kdl/src/utilities/utility_io.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/utilities/utility_io.cxx b/orocos_kdl/src/utilities/utility_io.cxx
index eacf6cb..0725c19 100644
--- a/orocos_kdl/src/utilities/utility_io.cxx
+++ b/orocos_kdl/src/utilities/utility_io.cxx
@@ -190,11 +190,11 @@ void EatWord(std::istream& is,const char* delim,char* storage,int maxsize)
     size=0;
     int count = 0;
     while ((count==0)&&(strchr(delim,ch)==NULL)) {
-        *p = (char) toupper(ch);
-        ++p;
-        if (size==maxsize) {
+        if (size>=maxsize-1) {
            throw Error_BasicIO_ToBig();
         }
+        *p = (char) toupper(ch);
+        ++p;
         _check_istream(is);
         ++size;
         //ch = is.get();
-- 
2.43.0


From 0b86a94573b2d319aab200ccb29d9e6b74e4e6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:06 +0000
Subject: [PATCH 56/56] fix: reading a velocity profile at the end of a stream
 left the stream failed

---
 orocos_kdl/src/velocityprofile.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile.cpp b/orocos_kdl/src/velocityprofile.cpp
index dec2453..ef0ec60 100644
--- a/orocos_kdl/src/velocityprofile.cpp
+++ b/orocos_kdl/src/velocityprofile.cpp
@@ -56,13 +56,13 @@ VelocityProfile* VelocityProfile::Read(std::istream& is) {
 	EatWord(is,"[",storage,sizeof(storage));
 	Eat(is,'[');
 	if (strcmp(storage,"DIRACVEL")==0) {
-		Eat(is,']');
+		EatEnd(is,']');
 		IOTracePop();
 		return new VelocityProfile_Dirac();
 	} else if (strcmp(storage,"CONSTVEL")==0) {
 		double vel;
 		is >> vel;
-		Eat(is,']');
+		EatEnd(is,']');
 		IOTracePop();
 		return new VelocityProfile_Rectangular(vel);
 	} else if (strcmp(storage,"TRAPEZOIDAL")==0) {
@@ -71,7 +71,7 @@ VelocityProfile* VelocityProfile::Read(std::istream& is) {
  		is >> maxvel;
 		Eat(is,',');
 		is >> maxacc;
-		Eat(is,']');
+		EatEnd(is,']');
 		IOTracePop();
 		return new VelocityProfile_Trap(maxvel,maxacc);
 	} else if (strcmp(storage,"TRAPEZOIDALHALF")==0) {
@@ -83,7 +83,7 @@ VelocityProfile* VelocityProfile::Read(std::istream& is) {
 		Eat(is,',');
 		bool starting;
 		is >> starting;
-		Eat(is,']');
+		EatEnd(is,']');
 		IOTracePop();
 		return new VelocityProfile_TrapHalf(maxvel,maxacc,starting);
 	}
-- 
2.43.0

