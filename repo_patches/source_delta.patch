From 6a061ef26a4731d754b4cac0b59ef843050a257d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 01/29] fix: always normalize the orientation given to a Pose

The test 'norm - 1 < 1e-4' skipped every quaternion whose norm is above
1.0001, leaving a non unit orientation that scales points and breaks inverse().
---
 src/State/Pose.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/State/Pose.cpp b/src/State/Pose.cpp
index 9226f77..695b125 100644
--- a/src/State/Pose.cpp
+++ b/src/State/Pose.cpp
@@ -11,7 +11,7 @@ namespace DynamicObstacleAvoidance
 	Pose::Pose(const Eigen::Vector3d& position, const Eigen::Quaterniond& orientation):
 	position(position), orientation(orientation)
 	{
-		if(this->orientation.norm() - 1 < 1e-4) this->orientation.normalize();
+		this->orientation.normalize();
 		if(this->orientation.w() < 0.0) this->orientation = Eigen::Quaterniond(-this->orientation.w(), -this->orientation.x(), -this->orientation.y(), -this->orientation.z()); 
 	}
 
@@ -22,7 +22,7 @@ namespace DynamicObstacleAvoidance
 	Pose::Pose(const double& px, const double& py, const double& pz, const double& qw, const double& qx, const double& qy, const double& qz):
 	position(px,py,pz), orientation(qw,qx,qy,qz)
 	{
-		if(orientation.norm() - 1 < 1e-4) this->orientation.normalize();
+		this->orientation.normalize();
 		if(this->orientation.w() < 0.0) this->orientation = Eigen::Quaterniond(-this->orientation.w(), -this->orientation.x(), -this->orientation.y(), -this->orientation.z());
 	}
 
-- 
2.43.0


From 077d633498746358e38b63adc0534e9da43f590a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 02/29] fix: initialise the reference position of obstacles
 built from a name only

---
 src/Obstacle/Obstacle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Obstacle/Obstacle.cpp b/src/Obstacle/Obstacle.cpp
index 4474d64..637d19d 100644
--- a/src/Obstacle/Obstacle.cpp
+++ b/src/Obstacle/Obstacle.cpp
@@ -6,11 +6,11 @@
 namespace DynamicObstacleAvoidance
 {
 	Obstacle::Obstacle(const std::string& name, double safety_margin):
-	name(name), state(Eigen::Vector3d::Zero()), safety_margin(Eigen::Array3d(safety_margin, safety_margin, safety_margin))  
+	name(name), state(Eigen::Vector3d::Zero()), reference_position(state.get_position()), safety_margin(Eigen::Array3d(safety_margin, safety_margin, safety_margin))  
 	{}
 
 	Obstacle::Obstacle(const std::string& name, const Eigen::Array3d& safety_margin):
-	name(name), state(Eigen::Vector3d::Zero()), safety_margin(safety_margin)
+	name(name), state(Eigen::Vector3d::Zero()), reference_position(state.get_position()), safety_margin(safety_margin)
 	{}
 
 	Obstacle::Obstacle(const std::string& name, double cx, double cy, double cz, double safety_margin):
-- 
2.43.0


From 41a529b71819ea0f078470cbb64b510c6a2ad137 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 03/29] fix: give every copy of an Agent its own envelope

The copy constructor left the envelope null, so that transformed() and any
setter on a copy crashed; the assignment shared the envelope of the source.
---
 include/DynamicObstacleAvoidance/Agent.hpp |  5 +++++
 src/Agent.cpp                              | 11 ++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/DynamicObstacleAvoidance/Agent.hpp b/include/DynamicObstacleAvoidance/Agent.hpp
index 24cf801..d53a327 100644
--- a/include/DynamicObstacleAvoidance/Agent.hpp
+++ b/include/DynamicObstacleAvoidance/Agent.hpp
@@ -47,6 +47,11 @@ namespace DynamicObstacleAvoidance
 		 */
 		Agent(const Agent& agent);
 
+		/**
+		 * @brief Copy assignment, the envelope is duplicated and not shared
+		 */
+		Agent& operator=(const Agent& agent);
+
 		/**
 		 * @brief Getter of the envelope
 		 * @return the envelope
diff --git a/src/Agent.cpp b/src/Agent.cpp
index 972099b..f7e0e22 100644
--- a/src/Agent.cpp
+++ b/src/Agent.cpp
@@ -15,9 +15,18 @@ namespace DynamicObstacleAvoidance
 	}
 
 	Agent::Agent(const Agent& agent):
-	state(agent.state), safety_margin(agent.safety_margin), delta_t(agent.delta_t)
+	state(agent.state), safety_margin(agent.safety_margin), envelope(std::make_shared<Ellipsoid>(static_cast<const Ellipsoid&>(*agent.envelope))), delta_t(agent.delta_t)
 	{}
 
+	Agent& Agent::operator=(const Agent& agent)
+	{
+		this->state = agent.state;
+		this->safety_margin = agent.safety_margin;
+		this->envelope = std::make_shared<Ellipsoid>(static_cast<const Ellipsoid&>(*agent.envelope));
+		this->delta_t = agent.delta_t;
+		return *this;
+	}
+
 	void Agent::update_envelope()
 	{
 		double margin = std::max(0.1, this->safety_margin);
-- 
2.43.0


From bddec5f1f947f329eecb6e3b41d57b7e4c34d731 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 04/29] fix: keep the envelope of an Agent in step at
 construction and when its safety margin changes

---
 include/DynamicObstacleAvoidance/Agent.hpp | 1 +
 src/Agent.cpp                              | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/DynamicObstacleAvoidance/Agent.hpp b/include/DynamicObstacleAvoidance/Agent.hpp
index d53a327..af51ce8 100644
--- a/include/DynamicObstacleAvoidance/Agent.hpp
+++ b/include/DynamicObstacleAvoidance/Agent.hpp
@@ -131,6 +131,7 @@ namespace DynamicObstacleAvoidance
 		inline void set_safety_margin(const double& safety_margin)
 		{ 
 			this->safety_margin = safety_margin;
+			this->update_envelope();
 		}
 
 		/**
diff --git a/src/Agent.cpp b/src/Agent.cpp
index f7e0e22..86fbcac 100644
--- a/src/Agent.cpp
+++ b/src/Agent.cpp
@@ -6,12 +6,14 @@ namespace DynamicObstacleAvoidance
 	safety_margin(safety_margin), delta_t(0.5)
 	{
 		this->envelope = std::make_shared<Ellipsoid>("envelope", State(this->get_position()));
+		this->update_envelope();
 	}
 
 	Agent::Agent(const State& state, const double& safety_margin):
 	state(state), safety_margin(safety_margin), delta_t(0.5)
 	{
 		this->envelope = std::make_shared<Ellipsoid>("envelope", State(this->get_position()));
+		this->update_envelope();
 	}
 
 	Agent::Agent(const Agent& agent):
-- 
2.43.0


From 68a699294730f7280c73079215994308578e36ee Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 05/29] fix: do not return a removed obstacle from
 Environment::operator[]

Only aggregates are to be looked up in the list of the last update.
---
 src/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Environment.cpp b/src/Environment.cpp
index 639f92b..47667da 100644
--- a/src/Environment.cpp
+++ b/src/Environment.cpp
@@ -60,7 +60,7 @@ namespace DynamicObstacleAvoidance
 			{
 				for(auto& o:this->obstacle_list)
 				{
-					if(o->get_name() == k) return o;
+					if(o->get_type() == "Aggregate" && o->get_name() == k) return o;
 				}
 			}
 			throw Exceptions::ObstacleNotInEnvironmentException(k);
-- 
2.43.0


From d2d1bf530afa661e23c091b9585d31617fc1b60d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 06/29] fix: give an obstacle its reference position back when
 it leaves an aggregate

An aggregate moves the reference position of its primitives to its center.
An obstacle that was not part of an aggregate anymore after update() kept that
position, which may be far outside of it.
---
 src/Environment.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Environment.cpp b/src/Environment.cpp
index 47667da..1882db2 100644
--- a/src/Environment.cpp
+++ b/src/Environment.cpp
@@ -45,6 +45,14 @@ namespace DynamicObstacleAvoidance
 
 	void Environment::update()
 	{
+		// the primitives of the previous aggregates get their own reference position back
+		for(auto& o:this->obstacle_list)
+		{
+			auto it = this->obstacle_map.find(o->get_name());
+			// an aggregate that was added to the environment is not concerned
+			if(o->get_type() != "Aggregate" || (it != this->obstacle_map.end() && it->second == o)) continue;
+			for(auto& p:static_cast<Aggregate&>(*o).get_primitives()) p->set_reference_position(p->get_position());
+		}
 		std::deque<std::shared_ptr<Obstacle> > list;
 		transform(this->obstacle_map.begin(), this->obstacle_map.end(), back_inserter(list), [](const std::map<std::string, std::shared_ptr<Obstacle> >::value_type& val){return val.second;} );
 		this->obstacle_list = this->aggregated ? Aggregation::aggregate_obstacles(list) : list;
-- 
2.43.0


From 3df93f1d91535cd53633b5fdce2b1a33f334bc2b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 07/29] fix: intersect ellipsoids with lines along their second
 axis

The line was described by its slope, which is infinite in that direction, and
no intersection was ever found.
---
 src/Obstacle/Ellipsoid.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 8e601a2..270271c 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -260,27 +260,27 @@ namespace DynamicObstacleAvoidance
 		// transform both reference points in the object frame
 		Eigen::Vector3d rx1 = this->get_pose().inverse() * x1;
 		Eigen::Vector3d rx2 = this->get_pose().inverse() * x2;
-		// calculate the line passing by the two points
-		double a = (rx2(1) - rx1(1)) / (rx2(0) - rx1(0));
-		double b = rx1(1) - a * rx1(0);
+		// calculate the direction of the line passing by the two points
+		double dx = rx2(0) - rx1(0);
+		double dy = rx2(1) - rx1(1);
 		// compute the intersection between the ellipsoid and the desired velocity line
 		Eigen::Array3d lengths = this->get_axis_lengths() + this->get_safety_margin();
 		double r1squared = lengths(0) * lengths(0);
 		double r2squared = lengths(1) * lengths(1);
-		double A = 1 / r1squared + (a*a) / r2squared;
-		double B = (2*a*b) / r2squared;
-		double C = (b*b) / r2squared - 1;
+		double A = (dx*dx) / r1squared + (dy*dy) / r2squared;
+		double B = 2 * ((rx1(0)*dx) / r1squared + (rx1(1)*dy) / r2squared);
+		double C = (rx1(0)*rx1(0)) / r1squared + (rx1(1)*rx1(1)) / r2squared - 1;
 		double delta = B*B - 4*A*C;
 		// solution
 		Eigen::Vector3d p1 = Eigen::Vector3d::Zero();
 		Eigen::Vector3d p2 = Eigen::Vector3d::Zero();
 		bool intersect = false;
-		if(delta >= 0)
+		if(A > 0 && delta >= 0)
 		{
-			double px1 = (-B - sqrt(delta)) / (2*A);
-			p1 << px1, a * px1 + b, 0;
-			double px2 = (-B + sqrt(delta)) / (2*A);
-			p2 << px2, a * px2 + b, 0;
+			double t1 = (-B - sqrt(delta)) / (2*A);
+			p1 << rx1(0) + t1 * dx, rx1(1) + t1 * dy, 0;
+			double t2 = (-B + sqrt(delta)) / (2*A);
+			p2 << rx1(0) + t2 * dx, rx1(1) + t2 * dy, 0;
 			p1 = this->get_pose() * p1;
 			p2 = this->get_pose() * p2;
 			intersect = true;
-- 
2.43.0


From 701b56a55cc5af1133e176b2c761a932c7899ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 08/29] fix: wrap the index of the closest point after the last
 one

A point at an angle above the last sample of a hull (for instance exactly pi)
gave an index out of range.
---
 src/Utils/MathTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/MathTools.cpp b/src/Utils/MathTools.cpp
index 38af9b3..d397184 100644
--- a/src/Utils/MathTools.cpp
+++ b/src/Utils/MathTools.cpp
@@ -87,7 +87,7 @@ namespace DynamicObstacleAvoidance
         std::vector<double> vec;
         for (int64_t i = 0; i < A.cols(); ++i) vec.push_back(A.col(i)(index));
         std::vector<double>::iterator it = std::lower_bound(std::begin(vec), std::end(vec), p(index));
-        unsigned int first_index = it - vec.begin();
+        unsigned int first_index = (it - vec.begin()) % vec.size();
         unsigned int next_index = ((it + 1) - vec.begin()) % vec.size();
         return std::make_pair(first_index, next_index);
     }
-- 
2.43.0


From f8fe9b946e6cf5531f974b171bea66a3474f44d7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 09/29] fix: smooth a hull with its new points only

The smoothing of a point used its successor before it was computed, i.e. the
point of the previous hull or 0: hulls were 5% too small or depended on the past.
---
 src/Obstacle/StarShapeHull.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index 2d01726..b55f591 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -84,6 +84,7 @@ namespace DynamicObstacleAvoidance
 			}
 			surface_point(0) += safety(0);
 			surface_point(0) = std::max(this->min_radius, surface_point(0));
+			this->polar_surface_points.col(i) = surface_point;
 			// smooth function
 			if(i > 1)
 			{
@@ -91,7 +92,6 @@ namespace DynamicObstacleAvoidance
 				                                         0.05 * this->polar_surface_points.col(i-2)(0) + \
 				                                         0.05 * this->polar_surface_points.col(i)(0);
 			}
-			this->polar_surface_points.col(i) = surface_point;
 		}
 		// smooth 0 point with the last one
 		this->polar_surface_points.col(0)(0) = 0.9 * this->polar_surface_points.col(0)(0) + \
-- 
2.43.0


From 7c64ec5a023d71ab124e06f26fdbbf66573a9df1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 10/29] fix: use the products of the axis lengths in the area
 of an ellipsoid

---
 src/Obstacle/Ellipsoid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 270271c..07b8301 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -247,7 +247,7 @@ namespace DynamicObstacleAvoidance
 	double Ellipsoid::area(bool is_include_safety_margin) const
 	{
 		Eigen::Array3d lengths = (is_include_safety_margin) ? this->get_axis_lengths() + this->get_safety_margin() : this->get_axis_lengths();
-		return 4 * M_PI * (pow((pow(lengths(0), 1.6) + pow(lengths(1), 1.6) + pow(lengths(2), 1.6))/3, 1/1.6));
+		return 4 * M_PI * (pow((pow(lengths(0) * lengths(1), 1.6) + pow(lengths(0) * lengths(2), 1.6) + pow(lengths(1) * lengths(2), 1.6))/3, 1/1.6));
 	}
 
 	Eigen::Vector3d Ellipsoid::compute_repulsion_vector(const Agent& agent) const
-- 
2.43.0


From 086060d306f9b01af370287763a1f55bd935d41a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 11/29] fix: compute the normal of an ellipsoid as the gradient
 of its distance

The whole term was raised to the power 2p-1, which is not the gradient of
sum (x/a)^2p as soon as p is not 1 and the axis lengths differ.
---
 src/Obstacle/Ellipsoid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 07b8301..92150a6 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -65,12 +65,12 @@ namespace DynamicObstacleAvoidance
 	{
 		Eigen::Array3d point_in_frame = this->get_pose().inverse() * agent.get_position();
 		Eigen::Array3d lengths = this->axis_lengths + this->get_safety_margin() + agent.get_safety_margin();
-		Eigen::Array3d tmp_values = (2 * this->curvature_factor * point_in_frame);
 		for(int i=0; i<3; ++i)
 		{
-			tmp_values(i) = (lengths(i) > this->epsilon) ? tmp_values(i) / (lengths(i) * lengths(i)) : tmp_values(i);
+			if(lengths(i) <= this->epsilon) lengths(i) = 1;
 		}
-		Eigen::Vector3d normal_vector = tmp_values.pow(2 * this->curvature_factor - 1);
+		Eigen::Array3d tmp_values = point_in_frame / lengths;
+		Eigen::Vector3d normal_vector = 2 * this->curvature_factor * tmp_values.pow(2 * this->curvature_factor - 1) / lengths;
 		normal_vector.normalize();
 		return normal_vector;
 	}
-- 
2.43.0


From 3e2d169efcb9c8c64b8ef4dd22cee296fcded9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 12/29] fix: return a unit normal from a star shape hull

Its length was the one of the segment between two samples, so that the basis
built on it cancelled the velocity of the obstacle.
---
 src/Obstacle/StarShapeHull.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index b55f591..f410f18 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -115,7 +115,7 @@ namespace DynamicObstacleAvoidance
 		Eigen::Vector3d surface_point1 = this->cartesian_surface_points.col(idx.first);
 		Eigen::Vector3d surface_point2 = this->cartesian_surface_points.col(idx.second);
 
-		return (surface_point1-surface_point2).cross(Eigen::Vector3d::UnitZ());
+		return (surface_point1-surface_point2).cross(Eigen::Vector3d::UnitZ()).normalized();
 	}
 
 	double StarShapeHull::compute_distance_to_point(const Eigen::Vector3d& point, const Eigen::Array3d&) const
-- 
2.43.0


From ecfb6259c63a28c1f6350a23f5c0a7c5beee145a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 13/29] fix: make the orthogonal basis of the modulation
 orthonormal in 3D

The tangent vector is not of unit length when the normal is tilted toward z and
the velocity of the obstacle was reduced accordingly.
---
 src/Modulation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 7fbc903..6608ed4 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -69,6 +69,7 @@ namespace DynamicObstacleAvoidance
 				unit_vector = Eigen::Vector3d::UnitY();
 				tangent_vector = normal_vector.cross(unit_vector);
 			}
+			tangent_vector.normalize();
 
 			Eigen::Vector3d cross_product = tangent_vector.cross(normal_vector);
 			Eigen::Matrix3d orthogonal_basis;
-- 
2.43.0


From 56ae0b7d8c8d80f7110f5a595b3cdd82923e6421 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 14/29] fix: use both tangents of the surface in the reference
 basis

The third vector was orthogonal to the reference direction and not to the
normal: in 3D the modulated velocity could enter a non spherical obstacle.
---
 src/Modulation.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 6608ed4..a0056bd 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -83,9 +83,8 @@ namespace DynamicObstacleAvoidance
 				std::cerr << "Problem here" << std::endl;
 			}
 			
-			Eigen::Vector3d ref_cross_product = tangent_vector.cross(reference_direction);
 			Eigen::Matrix3d reference_basis;
-			reference_basis << reference_direction, tangent_vector, ref_cross_product;
+			reference_basis << reference_direction, tangent_vector, cross_product;
 			return std::make_pair(reference_basis, orthogonal_basis);
 		}
 
-- 
2.43.0


From 1ea7933961d2af4b2818495ab3d5650d47e4d9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 15/29] fix: build an orthonormal frame for velocities with a z
 component

A velocity along z gave a singular frame and was never deflected; a tilted one
gave non unit axes that changed the direction and norm of the result.
---
 src/Modulation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index a0056bd..7b6374c 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -112,9 +112,10 @@ namespace DynamicObstacleAvoidance
 			Eigen::Vector3d cross_product = agent_relative_velocity.cross(unit_vector);
 			if(cross_product.norm() < 1E-4) 
 			{
-				cross_product = Eigen::Vector3d::UnitY();
+				unit_vector = Eigen::Vector3d::UnitY();
 				cross_product = agent_relative_velocity.cross(unit_vector);
 			}
+			cross_product.normalize();
 			Eigen::Matrix3d orthogonal_matrix;
 			orthogonal_matrix << agent_relative_velocity, cross_product, cross_product.cross(agent_relative_velocity);
 			return orthogonal_matrix;
-- 
2.43.0


From cf1702dfc9b313b91ce78053d109a4b454a5dadd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 16/29] fix: return a null velocity also when the modulated
 velocity is infinite

The repulsion divides by the distance, null at the center of an obstacle whose
reference position is elsewhere.
---
 src/Modulation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 7b6374c..691b5ed 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -221,9 +221,9 @@ namespace DynamicObstacleAvoidance
 				}
 			}
 
-			if(modulated_velocity.hasNaN())
+			if(!modulated_velocity.allFinite())
 			{
-				std:: cerr << "Modulated velocity contains NaN numbers, returning 0 velocity" << std::endl;
+				std:: cerr << "Modulated velocity contains NaN or infinite numbers, returning 0 velocity" << std::endl;
 				modulated_velocity = Eigen::Vector3d(0,0,0);
 			}
 			return modulated_velocity;
-- 
2.43.0


From b00a6f2437c4c4e74c6c8cb9b1a1dbe29d790077 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 17/29] fix: throw an exception and not a pointer to one from
 linspace

---
 src/Utils/MathTools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Utils/MathTools.cpp b/src/Utils/MathTools.cpp
index d397184..b0778d4 100644
--- a/src/Utils/MathTools.cpp
+++ b/src/Utils/MathTools.cpp
@@ -1,11 +1,12 @@
 #include "DynamicObstacleAvoidance/Utils/MathTools.hpp"
+#include <stdexcept>
 
 namespace DynamicObstacleAvoidance
 {
     std::vector<double> MathTools::linspace(double start, double end, int num) {
         // catch rarely, throw often
         if (num < 2) {
-            throw new std::exception();
+            throw std::invalid_argument("linspace needs at least 2 points");
         }
         int partitions = num - 1;
         std::vector<double> pts;
-- 
2.43.0


From 0847588b8da8c54ff763b0d27e926fe993c44996 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:54 +0000
Subject: [PATCH 18/29] fix: draw the safety margin of an ellipsoid around it
 and not on it

---
 src/Obstacle/Ellipsoid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 92150a6..533fb45 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -131,9 +131,9 @@ namespace DynamicObstacleAvoidance
 				xrow.at(j) = point(0);
 				yrow.at(j) = point(1);
 				zrow.at(j) = point(2);
-				xrow_safety.at(j) = point(0);
-				yrow_safety.at(j) = point(1);
-				zrow_safety.at(j) = point(2);
+				xrow_safety.at(j) = safety_point(0);
+				yrow_safety.at(j) = safety_point(1);
+				zrow_safety.at(j) = safety_point(2);
 			}
 			x.at(i) = xrow;
 			y.at(i) = yrow;
-- 
2.43.0


From 54b4b0954d0abb531a03260fe17d2e10a69b84ab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:54 +0000
Subject: [PATCH 19/29] fix: draw the xz outline of an ellipsoid

The column used was the one in the yz plane, drawn as a vertical segment.
---
 src/Obstacle/Ellipsoid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 533fb45..a4fe65d 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -113,7 +113,8 @@ namespace DynamicObstacleAvoidance
 			std::vector<double> zrow_safety(n1);
 			for (unsigned int j=0; j<n1; ++j)
 			{
-				double phi = alpha.at(j);
+				// shifted so that the first column is the outline in the xz plane
+				double phi = alpha.at(j) + M_PI/2;
 				double theta = alpha.at(i);
 				Eigen::Vector3d point;
 				point(0) = this->get_axis_lengths(0) * sin(theta) * cos(phi);
-- 
2.43.0


From 79ec410fce7a4cb8ef031297b9d40dfb3b0a5905 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:54 +0000
Subject: [PATCH 20/29] fix: plot the agent in the plane of the second 3D
 subplot

---
 src/Utils/Plotting/PlottingTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/Plotting/PlottingTools.cpp b/src/Utils/Plotting/PlottingTools.cpp
index 7d97514..b7e4069 100644
--- a/src/Utils/Plotting/PlottingTools.cpp
+++ b/src/Utils/Plotting/PlottingTools.cpp
@@ -64,7 +64,7 @@ namespace DynamicObstacleAvoidance
 
 			plt::subplot(2, 1, 2);
 			plot_obstacles(obstacles, "xz");
-			plot_agent(agent, "xy");
+			plot_agent(agent, "xz");
 			plot_agent_trajectory(goal, position_history, "xz");
 			plt::xlim(-10, 10);
 			plt::ylim(-10, 10);
-- 
2.43.0


From 5904cfe70a77cd6b0134813caa0453b9cfbfbe33 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:54 +0000
Subject: [PATCH 21/29] fix: let an aggregate intersect with ellipsoids and
 other aggregates

Only the ellipsoid could be asked about the aggregate; asking the aggregate
always answered no.
---
 include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp | 7 +++++++
 src/Obstacle/Aggregate.cpp                              | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp b/include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp
index f82a4a7..409f16f 100644
--- a/include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp
+++ b/include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp
@@ -30,6 +30,13 @@ namespace DynamicObstacleAvoidance
 		 */
 		void update_center_position();
 
+		/**
+		 * @brief Function to check if the aggregate is intersecting with an ellipsoid
+		 * @param other_obstacle the ellipsoid
+		 * @return true if there is intersection with at least one primitive
+		 */
+		bool is_intersecting_ellipsoid(const Ellipsoid& other_obstacle) const override;
+
 	public:
 		/**
 		 * @brief Empty constructor
diff --git a/src/Obstacle/Aggregate.cpp b/src/Obstacle/Aggregate.cpp
index 0b235ac..f43e1ad 100644
--- a/src/Obstacle/Aggregate.cpp
+++ b/src/Obstacle/Aggregate.cpp
@@ -65,6 +65,13 @@ namespace DynamicObstacleAvoidance
 		if(update_hull) this->update_hull();
 	}
 
+	bool Aggregate::is_intersecting_ellipsoid(const Ellipsoid& other_obstacle) const
+	{
+		bool intersecting = false;
+		for(auto& p:this->primitives) intersecting = (intersecting || p->is_intersecting(other_obstacle));
+		return intersecting;
+	}
+
 	Eigen::Vector3d Aggregate::compute_normal_to_agent(const Agent& agent) const
 	{
 		if(this->point_is_inside(agent.get_position()))
-- 
2.43.0


From 9cb35497cafca11ce0f8b2a79e329cd9bfa7363c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:54 +0000
Subject: [PATCH 22/29] fix: do not miss the intersection of an ellipsoid with
 a thin one

A thin ellipsoid that passes between two samples of the other one was not
detected, and the answer depended on which of them was asked.
---
 src/Obstacle/Ellipsoid.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index a4fe65d..5eea25f 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -212,11 +212,19 @@ namespace DynamicObstacleAvoidance
 			// first sample the first ellipsoid
 			unsigned int nb_samples = 100;
 			Eigen::MatrixXd samples = other_obstacle.sample_from_parameterization(nb_samples, true);
-			// for each points check if at least one of them is inside
+			// the segments between the samples belong to the other ellipsoid as it is convex:
+			// check if at least one of them passes inside, in a frame where this ellipsoid is the unit circle
+			Eigen::Array3d lengths = this->get_axis_lengths() + this->get_safety_margin();
+			Pose inverse_pose = this->get_pose().inverse();
 			unsigned int i = 0;
-			while(!intersecting && i<samples.cols())
+			while(!intersecting && i+1<samples.cols())
 			{
-				intersecting = this->point_is_inside(samples.col(i));
+				Eigen::Array3d start = (inverse_pose * Eigen::Vector3d(samples.col(i))).array() / lengths;
+				Eigen::Array3d end = (inverse_pose * Eigen::Vector3d(samples.col(i+1))).array() / lengths;
+				Eigen::Vector2d p1 = start.head<2>();
+				Eigen::Vector2d segment = end.head<2>() - start.head<2>();
+				double t = (segment.squaredNorm() > 0) ? -p1.dot(segment) / segment.squaredNorm() : 0;
+				intersecting = ((p1 + std::min(1.0, std::max(0.0, t)) * segment).norm() <= 1);
 				++i;
 			}
 		}
-- 
2.43.0


From d62ea5c4c2b824d45d6d7da1db4e545ff5861c6d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:54 +0000
Subject: [PATCH 23/29] fix: take the safety margin of the agent into account
 in the distance to a hull

It was ignored, an agent could touch an aggregate up to its center.
---
 src/Obstacle/StarShapeHull.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index f410f18..4cfbe1f 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -118,7 +118,7 @@ namespace DynamicObstacleAvoidance
 		return (surface_point1-surface_point2).cross(Eigen::Vector3d::UnitZ()).normalized();
 	}
 
-	double StarShapeHull::compute_distance_to_point(const Eigen::Vector3d& point, const Eigen::Array3d&) const
+	double StarShapeHull::compute_distance_to_point(const Eigen::Vector3d& point, const Eigen::Array3d& safety_margin) const
 	{
 		Eigen::Vector3d polar_point = MathTools::cartesian_to_polar(this->get_pose().inverse() * point);
 		unsigned int idx = MathTools::find_closest_points(this->polar_surface_points, polar_point, 2).first;
@@ -126,9 +126,9 @@ namespace DynamicObstacleAvoidance
 
 		double distance;
 		if(this->is_inside)
-			distance = surface_point(0) / polar_point(0);
+			distance = std::max(this->min_radius, surface_point(0) - safety_margin(0)) / polar_point(0);
 		else
-			distance = polar_point(0) / surface_point(0);
+			distance = polar_point(0) / (surface_point(0) + safety_margin(0));
 		return distance;
 	}
 
-- 
2.43.0


From f890d616b4750add4890bab55cacba7c698f89bb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:07:54 +0000
Subject: [PATCH 24/29] fix: give the origin finite polar coordinates

---
 src/Utils/MathTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/MathTools.cpp b/src/Utils/MathTools.cpp
index b0778d4..b8b4ea7 100644
--- a/src/Utils/MathTools.cpp
+++ b/src/Utils/MathTools.cpp
@@ -51,7 +51,7 @@ namespace DynamicObstacleAvoidance
     Eigen::Vector3d MathTools::cartesian_to_polar(const Eigen::Vector3d& cartesian_point)
     {
         double radius = sqrt(cartesian_point(0) * cartesian_point(0) + cartesian_point(1) * cartesian_point(1) + cartesian_point(2) * cartesian_point(2));
-        double theta = acos(cartesian_point(2) / radius);
+        double theta = (radius > 0) ? acos(cartesian_point(2) / radius) : 0;
         double phi = atan2(cartesian_point(1), cartesian_point(0));
         return Eigen::Vector3d(radius, theta, phi);
     }
-- 
2.43.0


From a74b0fcdb9143ddc3aef9ca51178b82d047e3c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 25/29] fix: space the points of a hull evenly also between the
 last and the first

---
 src/Obstacle/StarShapeHull.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index 4cfbe1f..f5099a3 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -42,8 +42,8 @@ namespace DynamicObstacleAvoidance
 		this->set_reference_position(reference_point);
 		this->set_position(reference_point);
 
-		// this -1e-4 trick is to avoid that idx 0 and end represent both the same point
-		std::vector<double> phi = MathTools::linspace(-M_PI, M_PI-1e-4, this->resolution);
+		// the last point is one step before the first one, all the segments of the hull have the same opening
+		std::vector<double> phi = MathTools::linspace(-M_PI, M_PI - 2 * M_PI / this->resolution, this->resolution);
 		
 		for(unsigned int i = 0; i < this->resolution; ++i)
 		{
-- 
2.43.0


From ced693a8beb06c8587586a76a61fa08bccccc2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:44 +0000
Subject: [PATCH 26/29] fix: draw hulls and the reference of an aggregate in
 the plane asked for

---
 src/Obstacle/Aggregate.cpp     |  2 +-
 src/Obstacle/StarShapeHull.cpp | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/Obstacle/Aggregate.cpp b/src/Obstacle/Aggregate.cpp
index f43e1ad..a0de47b 100644
--- a/src/Obstacle/Aggregate.cpp
+++ b/src/Obstacle/Aggregate.cpp
@@ -102,7 +102,7 @@ namespace DynamicObstacleAvoidance
 		{
 			o->draw(color, axis);
 		}
-		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(1)}, "bx");
+		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()((axis == "xz") ? 2 : 1)}, "bx");
 		this->outside_hull.draw("k", axis);
 		this->inside_hull.draw("k", axis);
 	}
diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index f5099a3..9efa2ec 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -132,8 +132,10 @@ namespace DynamicObstacleAvoidance
 		return distance;
 	}
 
-	void StarShapeHull::draw(const std::string& color, const std::string&) const
+	void StarShapeHull::draw(const std::string& color, const std::string& axis) const
 	{
+		// second coordinate of the plane to draw
+		unsigned int v = (axis == "xz") ? 2 : 1;
 		std::vector<double> x;
 		std::vector<double> y;
 
@@ -142,20 +144,20 @@ namespace DynamicObstacleAvoidance
 		for (unsigned int i=0; i<this->resolution; ++i)
 		{		
 			x.push_back(this->cartesian_surface_points.col(i)(0));
-			y.push_back(this->cartesian_surface_points.col(i)(1));
+			y.push_back(this->cartesian_surface_points.col(i)(v));
 		}
 
 		plt::plot(x, y, color + "--");
 
 		if(this->get_name() == "")
 		{
-			plt::plot({this->get_position()(0)}, {this->get_position()(1)}, color + "o");
+			plt::plot({this->get_position()(0)}, {this->get_position()(v)}, color + "o");
 		}
 		else
 		{
-			plt::text(this->get_position()(0), this->get_position()(1), this->get_name());
+			plt::text(this->get_position()(0), this->get_position()(v), this->get_name());
 		}
-		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(1)}, color + "x");
+		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(v)}, color + "x");
 	}
 
 	bool StarShapeHull::point_is_inside(const Eigen::Vector3d& point) const
-- 
2.43.0


From 7f152fca9ee3e3333ac6d05fe9b1555abba3e127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:49 +0000
Subject: [PATCH 27/29] fix: destroy an obstacle as what it is through whatever
 handle it is held

---
 include/DynamicObstacleAvoidance/Obstacle/Obstacle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/DynamicObstacleAvoidance/Obstacle/Obstacle.hpp b/include/DynamicObstacleAvoidance/Obstacle/Obstacle.hpp
index 383870b..a5a416d 100644
--- a/include/DynamicObstacleAvoidance/Obstacle/Obstacle.hpp
+++ b/include/DynamicObstacleAvoidance/Obstacle/Obstacle.hpp
@@ -128,7 +128,7 @@ namespace DynamicObstacleAvoidance
 		/**
 		 * @brief Destructor
 		 */
-		~Obstacle();
+		virtual ~Obstacle();
 
 		/**
 		 * @brief Getter of the type as const value
-- 
2.43.0


From df26c836192d11aa3bd5f67fdc73147fec271996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:42 +0000
Subject: [PATCH 28/29] fix: give an obstacle without geometry a defined normal

---
 src/Obstacle/Obstacle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/Obstacle.cpp b/src/Obstacle/Obstacle.cpp
index 637d19d..9ed8667 100644
--- a/src/Obstacle/Obstacle.cpp
+++ b/src/Obstacle/Obstacle.cpp
@@ -43,7 +43,7 @@ namespace DynamicObstacleAvoidance
 	Eigen::Vector3d Obstacle::compute_normal_to_agent(const Agent&) const
 	{
 		std::cerr << "Fonction compute_normal_to_agent of abstract class obstacle used" << std::endl;
-		return Eigen::Vector3d();
+		return Eigen::Vector3d::Zero();
 	}
 
 	double Obstacle::compute_distance_to_point(const Eigen::Vector3d&, const Eigen::Array3d&) const
-- 
2.43.0


From e6f9d52ccb34a97d6f00914de10f88583378bd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:13 +0000
Subject: [PATCH 29/29] fix: leave an agent as it was when its assignment fails

---
 src/Agent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Agent.cpp b/src/Agent.cpp
index 86fbcac..0a6a8e2 100644
--- a/src/Agent.cpp
+++ b/src/Agent.cpp
@@ -22,9 +22,10 @@ namespace DynamicObstacleAvoidance
 
 	Agent& Agent::operator=(const Agent& agent)
 	{
+		// first, as it is the only step that can fail
+		this->envelope = std::make_shared<Ellipsoid>(static_cast<const Ellipsoid&>(*agent.envelope));
 		this->state = agent.state;
 		this->safety_margin = agent.safety_margin;
-		this->envelope = std::make_shared<Ellipsoid>(static_cast<const Ellipsoid&>(*agent.envelope));
 		this->delta_t = agent.delta_t;
 		return *this;
 	}
-- 
2.43.0

