From 37cabd9fd1c4cc32d536a22791391da608f80888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 01/44] Allow simulation builds to set the pool block size
 (SIMU_DST_BLOCK_SIZE)

---
 include/Simu/utility/Memory.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/Simu/utility/Memory.hpp b/include/Simu/utility/Memory.hpp
index d52c569..129d654 100644
--- a/include/Simu/utility/Memory.hpp
+++ b/include/Simu/utility/Memory.hpp
@@ -165,9 +165,17 @@ private:
 };
 
 
+// Default size of the blocks that a FreeListAllocator requests.
+// Only deterministic simulation builds define SIMU_DST_BLOCK_SIZE.
+#if defined(SIMU_DST_BLOCK_SIZE)
+constexpr std::size_t defaultBlockSize = SIMU_DST_BLOCK_SIZE;
+#else
+constexpr std::size_t defaultBlockSize = 32 * 1024;
+#endif
+
 // https://github.com/mtrebi/memory-allocators
 // https://en.cppreference.com/w/cpp/named_req/Allocator
-template <class T, std::size_t blockSize = 32 * 1024>
+template <class T, std::size_t blockSize = defaultBlockSize>
 class FreeListAllocator
 {
 public:
-- 
2.43.0


From 4b26695edc6fa5ccc54fa95fb85ccc52be68b635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 02/44] fix: Body's destructor iterated over colliders that it
 was erasing

---
 include/Simu/physics/Body.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Simu/physics/Body.hpp b/include/Simu/physics/Body.hpp
index e8fd43c..7c9988c 100644
--- a/include/Simu/physics/Body.hpp
+++ b/include/Simu/physics/Body.hpp
@@ -216,8 +216,8 @@ public:
 
     ~Body() override
     {
-        for (Collider& c : colliders_.colliders_)
-            removeCollider(&c);
+        while (!colliders_.isEmpty())
+            removeCollider(&colliders_.colliders_.front());
     }
 
     Collider* addCollider(const ColliderDescriptor& descriptor);
-- 
2.43.0


From 5693f46dc964839bd941256bd84cfa4198ff7b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 03/44] fix: replacing the contact factory left bodies with
 pointers to destroyed contacts

---
 include/Simu/physics/World.hpp |  8 +++-----
 src/Simu/physics/World.cpp     | 25 +++++++++++++++++++------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/include/Simu/physics/World.hpp b/include/Simu/physics/World.hpp
index 4cddc10..96012d2 100644
--- a/include/Simu/physics/World.hpp
+++ b/include/Simu/physics/World.hpp
@@ -136,11 +136,7 @@ public:
         colliderTree_.clear();
     }
 
-    void setContactFactory(ContactFactory makeContact)
-    {
-        contacts_.clear();
-        makeContactConstraint_ = makeContact;
-    }
+    void setContactFactory(ContactFactory makeContact);
 
     ////////////////////////////////////////////////////////////
     /// \brief Gives a view over the Bodies in the world
@@ -340,6 +336,8 @@ private:
     UniquePtr<ContactConstraint>
     makeContactConstraint(Collider& first, Collider& second);
 
+    void unlinkContact(ContactConstraint* contact);
+
     template <std::derived_from<PhysicsObject> T, class A, class... Args>
     UniquePtr<T> makeObject(A& alloc, Args&&... args)
     {
diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index f7c66cb..87b92f4 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -102,6 +102,15 @@ void World::step(float dt)
         f.postStep();
 }
 
+void World::setContactFactory(ContactFactory makeContact)
+{
+    for (auto& c : contacts_)
+        unlinkContact(c.second.existingContact.get());
+
+    contacts_.clear();
+    makeContactConstraint_ = makeContact;
+}
+
 typename World::ContactFactory World::defaultContactFactory =
     [](Collider& first, Collider& second, const typename World::ContactAlloc& alloc
     ) { return makeUnique<ContactConstraint>(alloc, first, second); };
@@ -122,6 +131,15 @@ World::makeContactConstraint(Collider& first, Collider& second)
     return c;
 }
 
+void World::unlinkContact(ContactConstraint* contact)
+{
+    for (Body* body : contact->bodies())
+    {
+        std::erase(body->contacts_, contact);
+        body->wake();
+    }
+}
+
 void World::applyForces(float dt)
 {
     struct ApplyForce
@@ -228,12 +246,7 @@ void World::cleanup()
         ContactConstraint* contact = it->second.existingContact.get();
         if (contact != nullptr && contact->isDead())
         {
-            for (Body* b : contact->bodies())
-            {
-                std::erase(b->contacts_, contact);
-                b->wake();
-            }
-
+            unlinkContact(contact);
             it = contacts_.erase(it);
         }
         else
-- 
2.43.0


From d57c2e414768bc8f322c78eaaa76be62d23a441e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 04/44] fix: contacts were destroyed without their destruction
 notification, before other dead objects were evaluated

---
 src/Simu/physics/World.cpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index 87b92f4..9c485df 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -224,6 +224,11 @@ private:
     {
         return it->get();
     }
+
+    PhysicsObject* access(typename ContactList::iterator it)
+    {
+        return it->second.existingContact.get();
+    }
 };
 
 
@@ -241,27 +246,16 @@ void World::removeCollider(Collider* collider)
 
 void World::cleanup()
 {
-    for (auto it = contacts_.begin(); it != contacts_.end();)
-    {
-        ContactConstraint* contact = it->second.existingContact.get();
-        if (contact != nullptr && contact->isDead())
-        {
-            unlinkContact(contact);
-            it = contacts_.erase(it);
-        }
-        else
-        {
-            ++it;
-        }
-    }
-
-
     Cleaner cleaner{};
 
+    auto deadContacts    = cleaner.deadObjects(contacts_);
     auto deadConstraints = cleaner.deadObjects(constraints_);
     auto deadForces      = cleaner.deadObjects(forces_);
     auto deadBodies      = cleaner.deadObjects(bodies_);
 
+    for (auto c : deadContacts)
+        unlinkContact(c->second.existingContact.get());
+
     for (auto c : deadConstraints)
     {
         for (Body* body : (*c)->bodies())
@@ -271,10 +265,12 @@ void World::cleanup()
         }
     }
 
+    cleaner.onDestruction(*this, deadContacts);
     cleaner.onDestruction(*this, deadConstraints);
     cleaner.onDestruction(*this, deadForces);
     cleaner.onDestruction(*this, deadBodies);
 
+    cleaner.erase(contacts_, deadContacts);
     cleaner.erase(constraints_, deadConstraints);
     cleaner.erase(forces_, deadForces);
     cleaner.erase(bodies_, deadBodies);
-- 
2.43.0


From 98ef831f5f0824ef9d682af96e61c46c3d40b7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 05/44] fix: a contact whose collider was removed by a preStep
 still used that collider

---
 src/Simu/physics/World.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index 9c485df..3a6bd9e 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -68,8 +68,9 @@ void World::step(float dt)
         SIMU_PROFILE_ENTRY(profiler_.narrowPhaseCollision);
 
         for (auto& c : contacts_)
-            if (c.second.existingContact != nullptr)
-                c.second.existingContact.get()->preStep();
+            if (c.second.existingContact != nullptr
+                && !c.second.existingContact->isDead()) // may have lost a collider
+                c.second.existingContact->preStep();
     }
 
     for (ForceField& f : forceFields())
-- 
2.43.0


From 1b42d798491ab7f819edf800e04a4375fa996480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 06/44] fix: editing the colliders of a body moved its
 geometry, ignored its spin and left its siblings' query boxes behind

---
 include/Simu/physics/Body.hpp | 8 +++++++-
 src/Simu/physics/Body.cpp     | 8 +++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/Simu/physics/Body.hpp b/include/Simu/physics/Body.hpp
index 7c9988c..bd0e84c 100644
--- a/include/Simu/physics/Body.hpp
+++ b/include/Simu/physics/Body.hpp
@@ -182,7 +182,13 @@ public:
 
     Transform toLocalSpace() const { return toWorldSpace().inverse(); }
 
-    void setLocalCentroid(Vec2 c) { localCentroid_.set(c); }
+    // The geometry does not move, only the point it rotates around does.
+    void setLocalCentroid(Vec2 c)
+    {
+        Vec2 d = c - localCentroid();
+        pos_ *= Translation{orientation_ * d - d};
+        localCentroid_.set(c);
+    }
 
 private:
 
diff --git a/src/Simu/physics/Body.cpp b/src/Simu/physics/Body.cpp
index 8760ceb..28f3dad 100644
--- a/src/Simu/physics/Body.cpp
+++ b/src/Simu/physics/Body.cpp
@@ -52,11 +52,11 @@ Collider* Body::addCollider(const ColliderDescriptor& descriptor)
     // see removeCollider.
     // Here we assume the new collider has the Body's velocity, ignoring
     //  conservation of momentums.
+    position_.setLocalCentroid(colliders_.properties().centroid);
     Vec2 dvAtCentroid = angularVelocity() * perp(centroid() - oldCentroid);
     setVelocity(velocity() + dvAtCentroid);
-    position_.setLocalCentroid(colliders_.properties().centroid);
 
-    update();
+    c->update(toWorldSpace());
     world_->addCollider(c);
 
     return c;
@@ -75,11 +75,9 @@ void Body::removeCollider(Collider* collider)
     //  of the Body's momentum.
     //  => velocities don't change for the Body, except at the center of mass
 
+    position_.setLocalCentroid(colliders_.properties().centroid);
     Vec2 dvAtCentroid = angularVelocity() * perp(centroid() - oldCentroid);
     setVelocity(velocity() + dvAtCentroid);
-    position_.setLocalCentroid(colliders_.properties().centroid);
-
-    update();
 }
 
 } // namespace simu
-- 
2.43.0


From fda1baea2b568cdd4688367a99f70dc22020086b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 07/44] fix: boxes with touching borders were reported apart or
 overlapping depending on rounding

---
 src/Simu/physics/BoundingBox.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Simu/physics/BoundingBox.cpp b/src/Simu/physics/BoundingBox.cpp
index 361a540..2023a47 100644
--- a/src/Simu/physics/BoundingBox.cpp
+++ b/src/Simu/physics/BoundingBox.cpp
@@ -45,7 +45,8 @@ bool BoundingBox::overlaps(const BoundingBox& other) const
     if (!isValid() || !other.isValid())
         return false;
 
-    return all(Interval{min_, max_}.overlaps(Interval{other.min_, other.max_}));
+    // exact, unlike Interval::overlaps which is subject to rounding.
+    return all(min_ <= other.max_) && all(other.min_ <= max_);
 }
 
 bool BoundingBox::contains(const BoundingBox& other) const
-- 
2.43.0


From 088f2ef29d0a2fb6c5aa2d616886fe4eb989f332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 08/44] fix: stepping threw when two structural bodies
 overlapped

---
 src/Simu/physics/World.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index 3a6bd9e..7d277a7 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -295,14 +295,16 @@ void World::updateBodies(float dt)
     typedef typename ColliderTree::iterator ColliderIt;
 
     // check for new contacts
-    auto registerContact = [=, this](ColliderIt first, ColliderIt second) {
-        std::array<simu::Collider*, 2> colliders{*first, *second};
-
+    auto registerContact = [this](const std::array<simu::Collider*, 2>& colliders) {
         const Body* b0 = colliders[0]->body();
         const Body* b1 = colliders[1]->body();
         if (b0 == b1)
             return;
 
+        // cannot be constrained
+        if (b0->isStructural() && b1->isStructural())
+            return;
+
         for (Constraint* c : b0->constraints())
         {
             if (c->disablesContacts())
@@ -317,7 +319,7 @@ void World::updateBodies(float dt)
 
         if (contact == contacts_.end())
             contacts_[colliders] = ContactStatus{
-                makeContactConstraint(**first, **second), true};
+                makeContactConstraint(*colliders[0], *colliders[1]), true};
         else
             contact->second.hit = true;
     };
-- 
2.43.0


From 75467ac707a2733e1a72aefab649fd45413e51dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 09/44] fix: a contact factory that throws left the collider
 tree half rebuilt

---
 src/Simu/physics/World.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index 7d277a7..47c5f70 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -327,9 +327,19 @@ void World::updateBodies(float dt)
     {
         SIMU_PROFILE_ENTRY(profiler_.treeUpdateAndCollision);
 
+        // The tree is being rebuilt while it reports collisions, user code
+        //  (which may throw) can only run once it is complete.
+        std::vector<std::array<simu::Collider*, 2>> collisions;
+
         colliderTree_.updateAndCollide(
-            [](ColliderIt it) { return (*it)->boundingBox(); }, registerContact
+            [](ColliderIt it) { return (*it)->boundingBox(); },
+            [&](ColliderIt first, ColliderIt second) {
+                collisions.push_back({*first, *second});
+            }
         );
+
+        for (const auto& colliders : collisions)
+            registerContact(colliders);
     }
 
     SIMU_PROFILE_TREE_HEIGHT(profiler_, colliderTree_);
-- 
2.43.0


From 1c1c067ec01cd0645cf76d96a47969c92dc9994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 10/44] fix: a constraint that throws while it is solved left
 its island's bodies unsolvable

---
 include/Simu/physics/Island.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/Simu/physics/Island.hpp b/include/Simu/physics/Island.hpp
index 09f42f0..1a9e311 100644
--- a/include/Simu/physics/Island.hpp
+++ b/include/Simu/physics/Island.hpp
@@ -51,6 +51,9 @@ public:
     Island(const Island&) = delete;
     Island(Island&&)      = delete;
 
+    // if solving was interrupted by an exception
+    ~Island() { releaseProxies(); }
+
     void init(Body* root)
     {
         addBody(root);
@@ -168,17 +171,24 @@ public:
             b->velocity_ = velocities_[b->proxyIndex];
             b->position_ = positions_[b->proxyIndex];
             b->update();
-            b->proxyIndex = Body::NO_INDEX;
         }
 
+        releaseProxies();
+    }
+
+private:
+
+    void releaseProxies()
+    {
+        for (Body* b : bodies_)
+            b->proxyIndex = Body::NO_INDEX;
+
         for (Constraint* c : constraints_)
             c->bodies().endSolve();
         for (ContactConstraint* c : contacts_)
             c->bodies().endSolve();
     }
 
-private:
-
     bool addBody(Body* body)
     {
         bool isNew = body->proxyIndex == Body::NO_INDEX;
-- 
2.43.0


From 7240a102b873e15c2672cbfe135a6a8ab1a71a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 11/44] fix: constraints kept using the mass that their bodies
 had before colliders were added or removed

---
 include/Simu/physics/Bodies.hpp     |  6 ++++++
 include/Simu/physics/Bodies.inl.hpp | 26 +++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/include/Simu/physics/Bodies.hpp b/include/Simu/physics/Bodies.hpp
index 11baef7..b306136 100644
--- a/include/Simu/physics/Bodies.hpp
+++ b/include/Simu/physics/Bodies.hpp
@@ -239,6 +239,8 @@ private:
         SIMU_ASSERT(index0 != Body::NO_INDEX, "");
         SIMU_ASSERT(index1 != Body::NO_INDEX, "");
 
+        updateInvMasses(); // colliders may have been added or removed.
+
         proxies_ = Proxies{
             SolverProxy{ps + index0, vs + index0},
             SolverProxy{ps + index1, vs + index1},
@@ -256,8 +258,12 @@ private:
         return proxies_;
     }
 
+    inline void updateInvMasses();
+
     std::array<Body*, n> bodies_;
 
+    Dominance dominances_;
+
     Proxies proxies_{};
 
     InvMasses invMasses_;
diff --git a/include/Simu/physics/Bodies.inl.hpp b/include/Simu/physics/Bodies.inl.hpp
index f564d19..0489566 100644
--- a/include/Simu/physics/Bodies.inl.hpp
+++ b/include/Simu/physics/Bodies.inl.hpp
@@ -84,14 +84,30 @@ Bodies::Bodies(std::initializer_list<Body*> bodies, std::optional<Dominance> dom
         bodies_[i++] = body;
     }
 
-    Dominance d = dominances.value_or(
+    dominances_ = dominances.value_or(
         Vec2{bodies_[0]->dominance(), bodies_[1]->dominance()}
     );
 
-    invMasses_.m0 = d[0] * bodies_[0]->invMass();
-    invMasses_.I0 = d[0] * bodies_[0]->invInertia();
-    invMasses_.m1 = d[1] * bodies_[1]->invMass();
-    invMasses_.I1 = d[1] * bodies_[1]->invInertia();
+    invMasses_.m0 = dominances_[0] * bodies_[0]->invMass();
+    invMasses_.I0 = dominances_[0] * bodies_[0]->invInertia();
+    invMasses_.m1 = dominances_[1] * bodies_[1]->invMass();
+    invMasses_.I1 = dominances_[1] * bodies_[1]->invInertia();
+}
+
+
+void Bodies::updateInvMasses()
+{
+    // a body that lost all of its colliders keeps its last masses
+    if (!bodies_[0]->colliders_.isEmpty())
+    {
+        invMasses_.m0 = dominances_[0] * bodies_[0]->invMass();
+        invMasses_.I0 = dominances_[0] * bodies_[0]->invInertia();
+    }
+    if (!bodies_[1]->colliders_.isEmpty())
+    {
+        invMasses_.m1 = dominances_[1] * bodies_[1]->invMass();
+        invMasses_.I1 = dominances_[1] * bodies_[1]->invInertia();
+    }
 }
 
 
-- 
2.43.0


From 92786f212312db55395cada1eb7b20d9ce4eaf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:17 +0000
Subject: [PATCH 12/44] fix: a DistanceConstraint with only a minimal distance
 could not be made

---
 include/Simu/physics/DistanceConstraint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/DistanceConstraint.hpp b/include/Simu/physics/DistanceConstraint.hpp
index 024aec0..d4b9f50 100644
--- a/include/Simu/physics/DistanceConstraint.hpp
+++ b/include/Simu/physics/DistanceConstraint.hpp
@@ -152,7 +152,7 @@ public:
         );
 
         SIMU_ASSERT(
-            maxDistance > 0.f,
+            !maxDistance.has_value() || maxDistance.value() > 0.f,
             "Cannot enforce a maximal distance <= 0. Use an Hinge constraint "
             "for a distance of 0."
         );
-- 
2.43.0


From 2dea28f7efc9486eef4d5d6cfae601d07c45f192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 13/44] fix: stepping threw when the two points of a contact
 were redundant

---
 include/Simu/physics/Constraint.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/Simu/physics/Constraint.hpp b/include/Simu/physics/Constraint.hpp
index 76d315e..2b0e966 100644
--- a/include/Simu/physics/Constraint.hpp
+++ b/include/Simu/physics/Constraint.hpp
@@ -226,6 +226,12 @@ public:
         computeKs(proxies, true);
         computeBounce(proxies);
 
+        if (frame_.nContacts < manifold_.nContacts())
+        {
+            tangentLambda_ = Vec2{tangentLambda_[0] + tangentLambda_[1], 0.f};
+            normalLambda_  = Vec2{normalLambda_[0] + normalLambda_[1], 0.f};
+        }
+
         previousTangentLambda_ = tangentLambda_;
         previousNormalLambda_  = normalLambda_;
         tangentLambda_         = Vec2{};
@@ -479,6 +485,13 @@ private:
             normalK(1, 0) = normalK(0, 1);
 
             normalKSolver_ = LcpSolver<float>(normalK);
+
+            // The contact points are so close that they are redundant
+            if (!normalKSolver_.isValid())
+            {
+                frame_.nContacts = 1;
+                invNormalK11_    = 1.f / normalK(0, 0);
+            }
         }
     }
 
-- 
2.43.0


From b2858e1b8c05987df6d7ab1a30c7ee3c5268a419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:25 +0000
Subject: [PATCH 14/44] fix: constraints and bodies were solved twice in a step
 when a constraint became active after it was asked from its other body

---
 include/Simu/physics/Bodies.hpp |  3 +++
 include/Simu/physics/Island.hpp | 21 ++++++++++++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/Simu/physics/Bodies.hpp b/include/Simu/physics/Bodies.hpp
index b306136..012479d 100644
--- a/include/Simu/physics/Bodies.hpp
+++ b/include/Simu/physics/Bodies.hpp
@@ -267,6 +267,9 @@ private:
     Proxies proxies_{};
 
     InvMasses invMasses_;
+
+    // Set by the Island for the rest of the step
+    bool isInactive_ = false;
 };
 
 
diff --git a/include/Simu/physics/Island.hpp b/include/Simu/physics/Island.hpp
index 1a9e311..398ad26 100644
--- a/include/Simu/physics/Island.hpp
+++ b/include/Simu/physics/Island.hpp
@@ -43,6 +43,7 @@ public:
         : bodies_{alloc},
           constraints_{alloc},
           contacts_{alloc},
+          inactive_{alloc},
           positions_{alloc},
           velocities_{alloc}
     {
@@ -52,7 +53,13 @@ public:
     Island(Island&&)      = delete;
 
     // if solving was interrupted by an exception
-    ~Island() { releaseProxies(); }
+    ~Island()
+    {
+        releaseProxies();
+
+        for (Constraint* c : inactive_)
+            c->bodies().isInactive_ = false;
+    }
 
     void init(Body* root)
     {
@@ -214,7 +221,7 @@ private:
     template <class T, class C>
     bool addConstraint(T* constraint, C& container)
     {
-        if (constraint->bodies().hasProxies())
+        if (constraint->bodies().hasProxies() || constraint->bodies().isInactive_)
             return false;
 
         container.emplace_back(constraint);
@@ -227,7 +234,9 @@ private:
 
         constraint->bodies().startSolve(positions_.data(), velocities_.data());
 
-        // TODO: Must be called **exactly** once per constraint.
+        // Must be called **exactly** once per constraint. If it was called again
+        // for the constraint's other body (possibly in another island) and gave
+        // another answer, bodies that are already solved would be solved twice.
         if (!constraint->isActive(constraint->bodies().getProxies()))
         {
             if (added2)
@@ -248,6 +257,9 @@ private:
 
             constraint->bodies().endSolve();
             container.pop_back();
+
+            inactive_.emplace_back(constraint);
+            constraint->bodies().isInactive_ = true;
             return false;
         }
 
@@ -258,6 +270,9 @@ private:
     std::vector<Constraint*, ReboundTo<Alloc, Constraint*>> constraints_;
     std::vector<ContactConstraint*, ReboundTo<Alloc, ContactConstraint*>> contacts_;
 
+    // found while this Island was used, stays until the Island is destroyed
+    std::vector<Constraint*, ReboundTo<Alloc, Constraint*>> inactive_;
+
     std::vector<Position, ReboundTo<Alloc, Position>> positions_;
     std::vector<Velocity, ReboundTo<Alloc, Velocity>> velocities_;
 
-- 
2.43.0


From 924b137d02aa1d1dabff618150bf5f51c4604c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:04 +0000
Subject: [PATCH 15/44] fix: a translation motor pushed its body sideways when
 its direction was not along an axis

---
 include/Simu/physics/Motors.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/Simu/physics/Motors.hpp b/include/Simu/physics/Motors.hpp
index 76d7451..e8a44a1 100644
--- a/include/Simu/physics/Motors.hpp
+++ b/include/Simu/physics/Motors.hpp
@@ -55,16 +55,10 @@ public:
 
     Value clampLambda(Value lambda, float dt) const
     {
-        Value maxImpulse = direction_ * throttle_ * maxForce_ * dt;
-
-        Uint32 i = 0;
-        for (auto& l : lambda)
-        {
-            auto bound = maxImpulse[i++];
-            l = (bound < 0) ? clamp(l, bound, 0.f) : clamp(l, 0.f, bound);
-        }
-
-        return lambda;
+        // Only the part of the impulse along the direction, clamping each
+        //  component separately would also push sideways.
+        float maxImpulse = throttle_ * maxForce_ * dt;
+        return clamp(dot(lambda, direction_), 0.f, maxImpulse) * direction_;
     }
 
     Value clampPositionLambda(Value /* lambda */) const { return Value{}; }
-- 
2.43.0


From 3cd0a5df394f5f2c29377607ad2074108a8c3994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 16/44] fix: makeUnique leaked the memory of an object whose
 constructor threw

---
 include/Simu/utility/Memory.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/Simu/utility/Memory.hpp b/include/Simu/utility/Memory.hpp
index 129d654..2af23e0 100644
--- a/include/Simu/utility/Memory.hpp
+++ b/include/Simu/utility/Memory.hpp
@@ -60,8 +60,17 @@ UniquePtr<T> makeUnique(const Alloc& alloc, Args&&... args)
     };
 
     T* obj = std::allocator_traits<A>::allocate(a, 1);
-    std::allocator_traits<A>::construct(a, obj, std::forward<Args>(args)...);
-    return {obj, d};
+    try
+    {
+        std::allocator_traits<A>::construct(a, obj, std::forward<Args>(args)...);
+    }
+    catch (...)
+    {
+        std::allocator_traits<A>::deallocate(a, obj, 1);
+        throw;
+    }
+
+    return {obj, std::move(d)};
 }
 
 template <
-- 
2.43.0


From a04f2ff710b44f7d4c0f83ca3ace095e47c77ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:24 +0000
Subject: [PATCH 17/44] fix: the pool allocator leaked a block when out of
 memory, and could terminate when deallocating

---
 include/Simu/utility/Memory.hpp | 36 ++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/Simu/utility/Memory.hpp b/include/Simu/utility/Memory.hpp
index 2af23e0..b80bd07 100644
--- a/include/Simu/utility/Memory.hpp
+++ b/include/Simu/utility/Memory.hpp
@@ -135,14 +135,13 @@ public:
         if (data_ == nullptr)
             throw std::bad_alloc{};
 
-        freeList_.emplace_back(data_, data_ + sz);
+        freeList_.emplace_back(data_.get(), data_.get() + sz);
+        spares_.emplace_back(nullptr, nullptr); // the first allocation does not throw
     }
 
     Block(const Block&) = delete;
     Block(Block&&)      = delete;
 
-    ~Block() { delete[] data_; }
-
     template <class T>
     T* allocate(std::size_t n);
 
@@ -169,8 +168,13 @@ private:
 
     std::list<FreeBlock> freeList_{};
 
-    Byte*       data_ = nullptr;
-    std::size_t sz;
+    // Nodes for freeList_, so that deallocating never allocates.
+    // There is always at least one more node, in both lists, than there are allocations.
+    std::list<FreeBlock> spares_{};
+    std::size_t          nAllocations_ = 0;
+
+    std::unique_ptr<Byte[]> data_;
+    std::size_t             sz;
 };
 
 
@@ -253,14 +257,22 @@ T* Block::allocate(std::size_t n)
 
         if (std::align(alignof(T), minSize, alignedStart, blockSize) != nullptr)
         {
+            if (freeList_.size() + spares_.size() < nAllocations_ + 2)
+                spares_.emplace_back(nullptr, nullptr);
+
+            ++nAllocations_;
+
             if (alignedStart != it->start)
-                freeList_.emplace(it, it->start, static_cast<Byte*>(alignedStart));
+            {
+                spares_.back() = FreeBlock{it->start, static_cast<Byte*>(alignedStart)};
+                freeList_.splice(it, spares_, std::prev(spares_.end()));
+            }
 
             Byte* alignedEnd = static_cast<Byte*>(alignedStart) + minSize;
             if (alignedEnd != it->end)
                 it->start = alignedEnd;
             else
-                freeList_.erase(it);
+                spares_.splice(spares_.end(), freeList_, it);
 
             return static_cast<T*>(alignedStart);
         }
@@ -273,7 +285,7 @@ template <class T>
 bool Block::deallocate(T* p, std::size_t n) noexcept
 {
     Byte* start = reinterpret_cast<Byte*>(p);
-    if (start < data_ || start >= data_ + sz)
+    if (start < data_.get() || start >= data_.get() + sz)
         return false;
 
     std::size_t size = n * sizeof(T);
@@ -293,15 +305,19 @@ bool Block::deallocate(T* p, std::size_t n) noexcept
     {
         auto prev   = std::prev(next);
         next->start = prev->start;
-        freeList_.erase(prev);
+        spares_.splice(spares_.end(), freeList_, prev);
     }
     else if (canMergeWithNext)
         next->start = start;
     else if (canMergeWithPrev)
         std::prev(next)->end = end;
     else
-        freeList_.emplace(next, start, end);
+    {
+        spares_.back() = FreeBlock{start, end};
+        freeList_.splice(next, spares_, std::prev(spares_.end()));
+    }
 
+    --nAllocations_;
     return true;
 }
 
-- 
2.43.0


From 752c20b76fe2816429e1a3c231c1b4927bb329e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:32 +0000
Subject: [PATCH 18/44] fix: inserting in a RTree leaked the element when the
 insertion threw

---
 include/Simu/physics/RTree.hpp | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/include/Simu/physics/RTree.hpp b/include/Simu/physics/RTree.hpp
index 5f70f3a..e3dc3a4 100644
--- a/include/Simu/physics/RTree.hpp
+++ b/include/Simu/physics/RTree.hpp
@@ -180,7 +180,17 @@ public:
     template <class... Args>
     iterator emplace(BoundingBox bounds, Args&&... args)
     {
-        return insert(makeLeaf(bounds, std::forward<Args>(args)...));
+        Node* leaf = makeLeaf(bounds, std::forward<Args>(args)...);
+
+        try
+        {
+            return insert(leaf);
+        }
+        catch (...)
+        {
+            deleteNode(leaf);
+            throw;
+        }
     }
 
     iterator erase(iterator it)
@@ -279,12 +289,24 @@ private:
     template <class... Args>
     Node* makeLeaf(const BoundingBox& bounds, Args&&... args)
     {
-        pointer data = AllocTraits::allocate(alloc_, 1);
-        AllocTraits::construct(alloc_, data, std::forward<Args>(args)...);
+        Node*   node = makeNode(bounds);
+        pointer data = nullptr;
 
-        Node* node = makeNode(bounds);
-        node->data = data;
+        try
+        {
+            data = AllocTraits::allocate(alloc_, 1);
+            AllocTraits::construct(alloc_, data, std::forward<Args>(args)...);
+        }
+        catch (...)
+        {
+            if (data != nullptr)
+                AllocTraits::deallocate(alloc_, data, 1);
 
+            deleteNode(node);
+            throw;
+        }
+
+        node->data = data;
         return node;
     }
 
-- 
2.43.0


From 7f78386d6e03544cdc209b15b9487fd4309bd9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:45 +0000
Subject: [PATCH 19/44] fix: a body kept a collider whose addition threw

---
 include/Simu/physics/Collider.hpp |  7 ++++---
 src/Simu/physics/Body.cpp         | 17 +++++++++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/Simu/physics/Collider.hpp b/include/Simu/physics/Collider.hpp
index eddb1b8..6c78f36 100644
--- a/include/Simu/physics/Collider.hpp
+++ b/include/Simu/physics/Collider.hpp
@@ -216,10 +216,11 @@ public:
 
     Collider* add(const ColliderDescriptor& descr, Body* owner)
     {
-        colliders_.emplace_back(descr, owner, colliders_.get_allocator());
+        // throws if the descriptor is invalid
+        MassProperties p{descr.polygon, descr.material.density};
 
-        MassProperties p = colliders_.back().properties();
-        properties_      = properties_ + p;
+        colliders_.emplace_back(descr, owner, colliders_.get_allocator());
+        properties_ = properties_ + p;
 
         return &colliders_.back();
     }
diff --git a/src/Simu/physics/Body.cpp b/src/Simu/physics/Body.cpp
index 28f3dad..ad4f0ef 100644
--- a/src/Simu/physics/Body.cpp
+++ b/src/Simu/physics/Body.cpp
@@ -45,7 +45,9 @@ Collider* Body::addCollider(const ColliderDescriptor& descriptor)
 {
     SIMU_ASSERT(world_ != nullptr, "Body must be owned by a World");
 
-    Vec2 oldCentroid = centroid();
+    Position oldPosition = position_;
+    Velocity oldVelocity = velocity_;
+    Vec2     oldCentroid = centroid();
 
     Collider* c = colliders_.add(descriptor, this);
 
@@ -57,7 +59,18 @@ Collider* Body::addCollider(const ColliderDescriptor& descriptor)
     setVelocity(velocity() + dvAtCentroid);
 
     c->update(toWorldSpace());
-    world_->addCollider(c);
+
+    try
+    {
+        world_->addCollider(c);
+    }
+    catch (...)
+    {
+        colliders_.remove(c);
+        position_ = oldPosition;
+        velocity_ = oldVelocity;
+        throw;
+    }
 
     return c;
 }
-- 
2.43.0


From 3cf874d6b1bf3d8523c45dcf5ca8fee870a2d3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:30 +0000
Subject: [PATCH 20/44] fix: World kept or leaked objects whose creation threw

---
 include/Simu/physics/World.hpp | 64 +++++++++++++++++++++++++---------
 src/Simu/physics/World.cpp     |  3 ++
 2 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/include/Simu/physics/World.hpp b/include/Simu/physics/World.hpp
index 96012d2..2977378 100644
--- a/include/Simu/physics/World.hpp
+++ b/include/Simu/physics/World.hpp
@@ -185,11 +185,29 @@ public:
     template <std::derived_from<Body> T, class... Args>
     T* makeBody(Args&&... args)
     {
-        auto body = makeUnique<T>(bAlloc_, std::forward<Args>(args)...);
-        T*   b = static_cast<T*>(bodies_.emplace_back(std::move(body)).get());
-        b->world_ = this;
+        BodyList made{bAlloc_};
+        made.emplace_back(makeUnique<T>(bAlloc_, std::forward<Args>(args)...));
+
+        auto it = made.begin();
+        T*   b  = static_cast<T*>(it->get());
         b->setAllocator(bAlloc_);
-        b->onConstruction(*this);
+        b->world_ = this;
+        bodies_.splice(bodies_.end(), made);
+
+        try
+        {
+            b->onConstruction(*this);
+        }
+        catch (...)
+        {
+            // constraints that were made by onConstruction need it until the next step
+            if (b->constraints().begin() == b->constraints().end())
+                bodies_.erase(it);
+            else
+                b->killed_ = true;
+
+            throw;
+        }
 
         return b;
     }
@@ -205,11 +223,11 @@ public:
     template <std::derived_from<Constraint> T, class... Args>
     T* makeConstraint(Args&&... args)
     {
-        T* c = static_cast<T*>(
-            constraints_
-                .emplace_back(makeObject<T>(cAlloc_, std::forward<Args>(args)...))
-                .get()
-        );
+        ConstraintList made{cAlloc_};
+        T* c = makeObject<T>(made, std::forward<Args>(args)...);
+
+        for (Body* body : c->bodies())
+            reserveOneMore(body->constraints_);
 
         for (Body* body : c->bodies())
         {
@@ -217,6 +235,7 @@ public:
             body->wake();
         }
 
+        constraints_.splice(constraints_.end(), made);
         return c;
     }
 
@@ -228,11 +247,9 @@ public:
     template <std::derived_from<ForceField> T, class... Args>
     T* makeForceField(Args&&... args)
     {
-        T* f = static_cast<T*>(
-            forces_
-                .emplace_back(makeObject<T>(fAlloc_, std::forward<Args>(args)...))
-                .get()
-        );
+        ForceFieldList made{fAlloc_};
+        T* f = makeObject<T>(made, std::forward<Args>(args)...);
+        forces_.splice(forces_.end(), made);
 
         if (f->domain().type == ForceField::DomainType::global)
             for (Body& body : bodies())
@@ -338,15 +355,28 @@ private:
 
     void unlinkContact(ContactConstraint* contact);
 
-    template <std::derived_from<PhysicsObject> T, class A, class... Args>
-    UniquePtr<T> makeObject(A& alloc, Args&&... args)
+    // The object is put in the list before its construction is notified, so that
+    //  the list can be spliced in the world's without throwing.
+    template <std::derived_from<PhysicsObject> T, class List, class... Args>
+    T* makeObject(List& list, Args&&... args)
     {
-        auto obj = makeUnique<T>(alloc, std::forward<Args>(args)...);
+        auto alloc = list.get_allocator();
+        T*   obj   = static_cast<T*>(
+            list.emplace_back(makeUnique<T>(alloc, std::forward<Args>(args)...)).get()
+        );
+
         obj->setAllocator(alloc);
         obj->onConstruction(*this);
         return obj;
     }
 
+    template <class Vector>
+    static void reserveOneMore(Vector& v)
+    {
+        if (v.size() == v.capacity())
+            v.reserve(2 * v.size() + 1);
+    }
+
 
     void applyForces(float dt);
 
diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index 47c5f70..838d723 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -123,6 +123,9 @@ World::makeContactConstraint(Collider& first, Collider& second)
     c->setAllocator(cAlloc_);
     c->onConstruction(*this);
 
+    for (Body* body : c->bodies())
+        reserveOneMore(body->contacts_);
+
     for (Body* body : c->bodies())
     {
         body->contacts_.emplace_back(c.get());
-- 
2.43.0


From 1b94db40d40cf14a9e9daffa8fd059c776798e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:48 +0000
Subject: [PATCH 21/44] fix: a RTree could not be move constructed, and lost
 its allocator when it was cleared

---
 include/Simu/physics/RTree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Simu/physics/RTree.hpp b/include/Simu/physics/RTree.hpp
index e3dc3a4..0762457 100644
--- a/include/Simu/physics/RTree.hpp
+++ b/include/Simu/physics/RTree.hpp
@@ -76,7 +76,7 @@ public:
     RTree(const RTree& other)            = delete;
     RTree& operator=(const RTree& other) = delete;
 
-    RTree(RTree&& other) noexcept { *this = std::move(other); }
+    RTree(RTree&& other) : RTree{other.alloc_} { *this = std::move(other); }
     RTree& operator=(RTree&& other) noexcept
     {
         std::swap(alloc_, other.alloc_);
@@ -206,7 +206,7 @@ public:
         return it;
     }
 
-    void clear() { *this = RTree{}; }
+    void clear() { *this = RTree{alloc_}; }
     bool isEmpty() const
     {
         return root_->left == nullptr && root_->right == nullptr;
-- 
2.43.0


From ac38fa6958848fe2b03401dbceab560eb1a91071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:02 +0000
Subject: [PATCH 22/44] fix: erasing from a RTree while iterating over it
 skipped or repeated elements

---
 include/Simu/physics/RTree.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/Simu/physics/RTree.hpp b/include/Simu/physics/RTree.hpp
index 0762457..9c118af 100644
--- a/include/Simu/physics/RTree.hpp
+++ b/include/Simu/physics/RTree.hpp
@@ -362,7 +362,7 @@ private:
         }
     }
 
-    void refit(Node* node)
+    void refit(Node* node, bool rotate = true)
     {
         // TODO: Benchmark and profile, we may not need to check rotations
         //  for all nodes whose bounds have changed.
@@ -375,7 +375,8 @@ private:
                 return;
 
             node->bounds = newBounds;
-            checkRotations(node);
+            if (rotate)
+                checkRotations(node);
 
             node = node->parent;
         }
@@ -482,7 +483,7 @@ private:
         return iterator{node};
     }
 
-    Node* extract(Node* node)
+    Node* extract(Node* node, bool rotate = true)
     {
         Node* sibling = node->sibling();
 
@@ -491,14 +492,14 @@ private:
             if (sibling == nullptr || sibling->isLeaf())
             {
                 node->handle() = nullptr;
-                refit(node->parent);
+                refit(node->parent, rotate);
             }
             else
             {
                 node->replaceBy(sibling->left);
                 sibling->replaceBy(sibling->right);
 
-                refit(node->parent);
+                refit(node->parent, rotate);
 
                 sibling->left  = nullptr;
                 sibling->right = nullptr;
@@ -509,7 +510,7 @@ private:
         {
             sibling->handle() = nullptr;
             node->parent->replaceBy(sibling);
-            refit(node->parent->parent);
+            refit(node->parent->parent, rotate);
 
             node->handle() = nullptr;
             deleteNode(node->parent);
@@ -518,7 +519,8 @@ private:
         return node;
     }
 
-    void erase(Node* node) { deleteNode(extract(node)); }
+    // rotations would change the iteration order of the nodes that remain
+    void erase(Node* node) { deleteNode(extract(node, false)); }
 
     Uint32 height(const Node* subRoot) const
     {
-- 
2.43.0


From b5762c454cc0d13859d22aa1c4e901209290412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:03 +0000
Subject: [PATCH 23/44] fix: the pool allocator returned too little memory when
 the requested size overflowed

---
 include/Simu/utility/Memory.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/Simu/utility/Memory.hpp b/include/Simu/utility/Memory.hpp
index b80bd07..eaa4aee 100644
--- a/include/Simu/utility/Memory.hpp
+++ b/include/Simu/utility/Memory.hpp
@@ -28,7 +28,9 @@
 #include <cstddef>
 #include <memory>
 #include <functional>
+#include <limits>
 #include <list>
+#include <new>
 
 #include "Simu/config.hpp"
 
@@ -356,6 +358,9 @@ FreeListAllocator<T, sz>::allocate(size_type n)
     if (n == 0)
         return nullptr;
 
+    if (n > (std::numeric_limits<size_type>::max() - alignof(T)) / sizeof(T))
+        throw std::bad_array_new_length{};
+
     for (auto& block : *blocks_)
     {
         pointer p = block.template allocate<T>(n);
-- 
2.43.0


From f20fb666bf8c3ecd010ecd807b21694780a997c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:32 +0000
Subject: [PATCH 24/44] fix: moving a profiler timer lost its measurement and
 used an uninitialized start time

---
 include/Simu/physics/Profiler.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/Simu/physics/Profiler.hpp b/include/Simu/physics/Profiler.hpp
index b11ab3e..e20ccbd 100644
--- a/include/Simu/physics/Profiler.hpp
+++ b/include/Simu/physics/Profiler.hpp
@@ -88,10 +88,9 @@ public:
 
     ScopedTimer(const ScopedTimer&) = delete;
     ScopedTimer(ScopedTimer&& other)
+        : start_{other.start_}, partial_{other.partial_}
     {
         std::swap(entry_, other.entry_);
-        entry_   = other.entry_;
-        partial_ = other.partial_;
     }
 
     ~ScopedTimer()
-- 
2.43.0


From 06fd2aacc2dd67511f1dd661fcb5543489a42a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:32 +0000
Subject: [PATCH 25/44] fix: bodies that spin clockwise were considered
 immobile and fell asleep

---
 include/Simu/physics/Body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/Body.hpp b/include/Simu/physics/Body.hpp
index bd0e84c..9b4e55e 100644
--- a/include/Simu/physics/Body.hpp
+++ b/include/Simu/physics/Body.hpp
@@ -398,7 +398,7 @@ private:
     bool isImmobile(float velocityTreshold, float angularVelocityTreshold) const
     {
         return normSquared(velocity()) < velocityTreshold * velocityTreshold
-               && angularVelocity() < angularVelocityTreshold;
+               && std::abs(angularVelocity()) < angularVelocityTreshold;
     }
 
     void
-- 
2.43.0


From c4c1ba98c59c09b7cfa19d9b4c82f2d3c6c41b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:33 +0000
Subject: [PATCH 26/44] fix: time spent with sleeping disabled did not
 interrupt the immobility of bodies

---
 include/Simu/physics/World.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/Simu/physics/World.hpp b/include/Simu/physics/World.hpp
index 2977378..1c8b3f2 100644
--- a/include/Simu/physics/World.hpp
+++ b/include/Simu/physics/World.hpp
@@ -306,8 +306,13 @@ public:
     void updateSettings(const Settings& settings)
     {
         if (!settings.enableSleeping && settings_.enableSleeping)
+        {
             for (Body& body : bodies())
+            {
                 body.wake();
+                body.timeImmobile_ = 0.f; // not measured while sleeping is disabled
+            }
+        }
 
         settings_ = settings;
     }
-- 
2.43.0


From cd9f6fd7e00d9ee966942149e1e53635712a4bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:33 +0000
Subject: [PATCH 27/44] fix: an awake island woke all the islands solved after
 it

---
 include/Simu/physics/Island.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Simu/physics/Island.hpp b/include/Simu/physics/Island.hpp
index 398ad26..d183e9c 100644
--- a/include/Simu/physics/Island.hpp
+++ b/include/Simu/physics/Island.hpp
@@ -92,6 +92,7 @@ public:
         contacts_.clear();
         positions_.clear();
         velocities_.clear();
+        isAwake_ = false;
     }
 
     bool hasConstraints()
-- 
2.43.0


From efa2f26b47637fd2894f0d0b029273f0dab939d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:14 +0000
Subject: [PATCH 28/44] fix: inserting in a RTree dereferenced a null node when
 areas overflow

---
 include/Simu/physics/RTree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Simu/physics/RTree.hpp b/include/Simu/physics/RTree.hpp
index 9c118af..91e09e1 100644
--- a/include/Simu/physics/RTree.hpp
+++ b/include/Simu/physics/RTree.hpp
@@ -453,7 +453,8 @@ private:
         std::priority_queue<NodeCost, std::vector<NodeCost>, NodeCostCmp> queue{};
         queue.emplace(root_, 0.f);
 
-        NodeCost best = {nullptr, INFINITY};
+        // all costs are infinite when areas overflow
+        NodeCost best = {root_, INFINITY};
         while (!queue.empty())
         {
             NodeCost current = queue.top();
-- 
2.43.0


From 9ab1a7a469e4a10b9c5a18e7c9ae14d200bf5478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:07 +0000
Subject: [PATCH 29/44] fix: nearly redundant contact points launched bodies
 away

---
 include/Simu/physics/Constraint.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/Simu/physics/Constraint.hpp b/include/Simu/physics/Constraint.hpp
index 2b0e966..e12393f 100644
--- a/include/Simu/physics/Constraint.hpp
+++ b/include/Simu/physics/Constraint.hpp
@@ -486,8 +486,13 @@ private:
 
             normalKSolver_ = LcpSolver<float>(normalK);
 
-            // The contact points are so close that they are redundant
-            if (!normalKSolver_.isValid())
+            // The contact points are so close that they are (nearly) redundant,
+            //  solving for both would give enormous opposite impulses.
+            constexpr float maxConditionNumber = 1e5f;
+            const float     det
+                = normalK(0, 0) * normalK(1, 1) - squared(normalK(0, 1));
+            if (!normalKSolver_.isValid()
+                || squared(normalK(0, 0)) > maxConditionNumber * det)
             {
                 frame_.nContacts = 1;
                 invNormalK11_    = 1.f / normalK(0, 0);
-- 
2.43.0


From 78bf282a7ad05665ab74a203d3a590d269e8485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:20 +0000
Subject: [PATCH 30/44] fix: overlapping shapes could have no contact at all
 when edges were nearly parallel

---
 include/Simu/physics/ContactManifold.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/Simu/physics/ContactManifold.hpp b/include/Simu/physics/ContactManifold.hpp
index ef76c5a..54d1d71 100644
--- a/include/Simu/physics/ContactManifold.hpp
+++ b/include/Simu/physics/ContactManifold.hpp
@@ -224,11 +224,19 @@ private:
 
         Vec2 n = -contactNormal_;
 
-        Vertex contact1 = contactEdges[inc].clipInside(previousOfRef);
+        // An end that is inside already is kept: the lines may be (nearly) parallel
+        //  or cross each other far away, at the other end.
+        const Edge& incEdge = contactEdges[inc];
+
+        Vertex contact1 = previousOfRef.isOutside(incEdge.to())
+                              ? incEdge.clipInside(previousOfRef)
+                              : incEdge.to();
         if (dot(contact1 - contactEdges[ref].from(), n) >= 0.f)
             contacts_[inc][nContacts_++] = contact1;
 
-        Vertex contact2 = contactEdges[inc].clipInside(nextOfRef);
+        Vertex contact2 = nextOfRef.isOutside(incEdge.from())
+                              ? incEdge.clipInside(nextOfRef)
+                              : incEdge.from();
         if (dot(contact2 - contactEdges[ref].from(), n) >= 0.f)
         {
             contacts_[inc][nContacts_++] = contact2;
-- 
2.43.0


From de07c2f74f664592950d2233ed5799011b480225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:04 +0000
Subject: [PATCH 31/44] fix: the grabber used a grab that was already removed
 from the world

---
 include/Simu/app/Scene.hpp |  3 +++
 include/Simu/app/Tool.hpp  | 36 +++++++++++++++++++++++++++++++++---
 src/Simu/app/Tool.cpp      | 35 ++++++++++++++++++++---------------
 3 files changed, 56 insertions(+), 18 deletions(-)

diff --git a/include/Simu/app/Scene.hpp b/include/Simu/app/Scene.hpp
index d679c5a..fb3aee0 100644
--- a/include/Simu/app/Scene.hpp
+++ b/include/Simu/app/Scene.hpp
@@ -165,6 +165,9 @@ protected:
         {
             if (t->getName() == name)
             {
+                if (tool_ != t.get())
+                    tool_->onUnselect();
+
                 tool_ = t.get();
                 return currentTool();
             }
diff --git a/include/Simu/app/Tool.hpp b/include/Simu/app/Tool.hpp
index ab694b5..ef4c108 100644
--- a/include/Simu/app/Tool.hpp
+++ b/include/Simu/app/Tool.hpp
@@ -43,6 +43,9 @@ public:
     // Must be unique. Must not change during execution
     virtual const char* getName() const { return ""; }
 
+    // called when the scene starts using another tool
+    virtual void onUnselect() {}
+
     virtual bool onKeypress(Keyboard::Input input) = 0;
     virtual bool onMousePress(Mouse::Input input)  = 0;
     virtual bool onMouseMove(Vec2 newPos)          = 0;
@@ -77,10 +80,13 @@ public:
 
 
     Grabber(Scene& scene) : scene_{scene} {}
+    ~Grabber() override;
 
     void        doGui() override {}
     const char* getName() const override { return name; }
 
+    void onUnselect() override { release(); }
+
     bool onMousePress(Mouse::Input input) override;
     bool onMouseMove(Vec2 pos) override;
 
@@ -89,10 +95,34 @@ public:
 
 private:
 
-    VisibleMouseConstraint* makeMouseConstraint(Body* b, Vec2 pos);
+    // forgets itself when the world destroys it,
+    //  ie when the grabbed body is removed or when the world is cleared.
+    class Grab : public VisibleMouseConstraint
+    {
+    public:
+
+        Grab(Body* b, Vec2 pos, Renderer* renderer, Grabber* grabber)
+            : VisibleMouseConstraint{b, pos, renderer}, grabber_{grabber}
+        {
+        }
+
+        ~Grab() override
+        {
+            if (grabber_ != nullptr && grabber_->grab_ == this)
+                grabber_->grab_ = nullptr;
+        }
+
+        void forgetGrabber() { grabber_ = nullptr; }
 
-    VisibleMouseConstraint* mc_ = nullptr;
-    Scene&                  scene_;
+    private:
+
+        Grabber* grabber_;
+    };
+
+    void release();
+
+    Grab*  grab_ = nullptr;
+    Scene& scene_;
 };
 
 
diff --git a/src/Simu/app/Tool.cpp b/src/Simu/app/Tool.cpp
index 0602932..fd11479 100644
--- a/src/Simu/app/Tool.cpp
+++ b/src/Simu/app/Tool.cpp
@@ -36,6 +36,12 @@ namespace simu
 // Grabber
 ////////////////////////////////////////////////////////////
 
+Grabber::~Grabber()
+{
+    if (grab_ != nullptr)
+        grab_->forgetGrabber();
+}
+
 bool Grabber::onMousePress(Mouse::Input input)
 {
     if (input.button != Mouse::Button::left)
@@ -46,20 +52,16 @@ bool Grabber::onMousePress(Mouse::Input input)
         scene_.world().forEachAt(input.pos, [&, this](Body* b) {
             if (!b->isStructural())
             {
-                if (mc_ != nullptr)
-                    mc_->kill();
-
-                mc_ = this->makeMouseConstraint(b, input.pos);
+                this->release();
+                grab_ = scene_.world().makeConstraint<Grab>(
+                    b, input.pos, scene_.app()->renderer(), this
+                );
             }
         });
     }
     else if (input.action == Mouse::Action::release)
     {
-        if (mc_ != nullptr)
-        {
-            mc_->kill();
-            mc_ = nullptr;
-        }
+        release();
     }
     else
     {
@@ -71,20 +73,23 @@ bool Grabber::onMousePress(Mouse::Input input)
 
 bool Grabber::onMouseMove(Vec2 pos)
 {
-    if (mc_ != nullptr)
+    if (grab_ != nullptr)
     {
-        mc_->updateMousePos(pos);
+        grab_->updateMousePos(pos);
         return true;
     }
 
     return false;
 }
 
-VisibleMouseConstraint* Grabber::makeMouseConstraint(Body* b, Vec2 pos)
+void Grabber::release()
 {
-    return scene_.world().makeConstraint<VisibleMouseConstraint>(
-        b, pos, scene_.app()->renderer()
-    );
+    if (grab_ != nullptr)
+    {
+        grab_->forgetGrabber();
+        grab_->kill();
+        grab_ = nullptr;
+    }
 }
 
 
-- 
2.43.0


From 18ce839b86928d1d569c88665c0415647d8542b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:05 +0000
Subject: [PATCH 32/44] fix: scrolling by anything else than one step zoomed
 the wrong way

---
 src/Simu/app/Scene.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Simu/app/Scene.cpp b/src/Simu/app/Scene.cpp
index 6b78987..3093cc5 100644
--- a/src/Simu/app/Scene.cpp
+++ b/src/Simu/app/Scene.cpp
@@ -109,8 +109,7 @@ bool Scene::onKeypress(Keyboard::Input input)
 
 bool Scene::onMouseScroll(Vec2 scroll)
 {
-    float zoomRatio = (scroll[1] < 0.f) ? 4.f / 5.f : 5.f / 4.f;
-    camera().setZoom(camera().zoom() * std::abs(scroll[1]) * zoomRatio);
+    camera().setZoom(camera().zoom() * std::pow(5.f / 4.f, scroll[1]));
     return true;
 }
 
-- 
2.43.0


From 4ab6bba3869d19b89d819baa8edc20c5af88f6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:27 +0000
Subject: [PATCH 33/44] fix: zooming without limit made the camera's transform
 singular

---
 include/Simu/app/Camera.hpp | 4 ++++
 src/Simu/app/Camera.cpp     | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/Simu/app/Camera.hpp b/include/Simu/app/Camera.hpp
index ca395bc..1049400 100644
--- a/include/Simu/app/Camera.hpp
+++ b/include/Simu/app/Camera.hpp
@@ -36,6 +36,10 @@ public:
 
     Camera();
 
+    // beyond these, the transforms lose all precision
+    static constexpr float minZoom = 1e-6f;
+    static constexpr float maxZoom = 1e6f;
+
     // a ratio of 2 zooms in, the looking at rect will be twice as small
     float zoom() const;
     void  setZoom(float ratio);
diff --git a/src/Simu/app/Camera.cpp b/src/Simu/app/Camera.cpp
index 21c782b..fecf01a 100644
--- a/src/Simu/app/Camera.cpp
+++ b/src/Simu/app/Camera.cpp
@@ -22,6 +22,8 @@
 //
 ////////////////////////////////////////////////////////////
 
+#include <algorithm>
+
 #include "Simu/app/Camera.hpp"
 #include "Simu/physics/Transform.hpp"
 
@@ -35,7 +37,7 @@ float Camera::zoom() const { return zoom_; }
 void  Camera::setZoom(float ratio)
 {
     if (ratio > 0.f)
-        zoom_ = ratio;
+        zoom_ = std::clamp(ratio, minZoom, maxZoom);
 }
 
 Vec2 Camera::center() const { return center_; }
-- 
2.43.0


From c9671e6ca515a431c0f1d2baadef2d894888c59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:27 +0000
Subject: [PATCH 34/44] fix: the play speed could become infinite, a paused
 scene then stepped by NaN

---
 include/Simu/app/Scene.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/app/Scene.hpp b/include/Simu/app/Scene.hpp
index fb3aee0..1eea9ee 100644
--- a/include/Simu/app/Scene.hpp
+++ b/include/Simu/app/Scene.hpp
@@ -73,7 +73,7 @@ public:
     // play speeds above 1 may hinder the physics accuracy
     void setPlaySpeed(float speed)
     {
-        if (speed > 0.f)
+        if (speed > 0.f && std::isfinite(speed))
             playSpeed_ = speed;
     }
     float playSpeed() const { return playSpeed_; }
-- 
2.43.0


From 984e560bdee62194fa30ade282a89948632f8c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:27 +0000
Subject: [PATCH 35/44] fix: the pause button did not follow the scene's pause
 state

---
 src/Simu/app/Application.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/Simu/app/Application.cpp b/src/Simu/app/Application.cpp
index 6b52477..e69dcbc 100644
--- a/src/Simu/app/Application.cpp
+++ b/src/Simu/app/Application.cpp
@@ -289,7 +289,6 @@ void Application::doGui(float dt)
         // for scene
         float playSpeed   = 1.f;
         bool  restart     = false;
-        bool  pauseToggle = false;
         bool  step        = false;
 
         bool showProfiler       = true;
@@ -459,20 +458,19 @@ void Application::doGui(float dt)
         if (ImGui::Button("+"))
             scene_->setPlaySpeed(scene_->playSpeed() * 2.f);
 
-        if (ImGui::Button(menu.pauseToggle ? "Play (P)" : "Pause (P)"))
+        if (ImGui::Button(scene_->isPaused() ? "Play (P)" : "Pause (P)"))
         {
-            menu.pauseToggle = !menu.pauseToggle;
-            if (menu.pauseToggle)
-                scene_->pause();
-            else
+            if (scene_->isPaused())
                 scene_->resume();
+            else
+                scene_->pause();
         }
 
         if (ImGui::Button("Restart (R)"))
             scene_->reset();
 
         // TODO:
-        // if (menu.pauseToggle)
+        // if (scene_->isPaused())
         //     if (ImGui::Button("Step (S)"))
         //         scene_->step();
 
-- 
2.43.0


From e36118aedb00761fd533024f0eab32b3c83e2e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:27 +0000
Subject: [PATCH 36/44] fix: the first viewport used the window's size instead
 of its framebuffer's

---
 src/Simu/app/Application.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Simu/app/Application.cpp b/src/Simu/app/Application.cpp
index e69dcbc..a868806 100644
--- a/src/Simu/app/Application.cpp
+++ b/src/Simu/app/Application.cpp
@@ -172,7 +172,7 @@ Application::Application()
     renderer_ = std::make_unique<OpenGlRenderer>();
 
     int w, h;
-    glfwGetWindowSize(window_, &w, &h);
+    glfwGetFramebufferSize(window_, &w, &h);
     renderer_->setViewport(Vec2i{0, 0}, Vec2i{w, h});
 
     // glfwSwapInterval(1);
-- 
2.43.0


From a02c9dfbe16b739d421ce9c746461b008602dc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:27 +0000
Subject: [PATCH 37/44] fix: drawing points never ended with a precision above
 255

---
 src/Simu/app/Renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Simu/app/Renderer.cpp b/src/Simu/app/Renderer.cpp
index 7ef4073..083aab0 100644
--- a/src/Simu/app/Renderer.cpp
+++ b/src/Simu/app/Renderer.cpp
@@ -116,7 +116,7 @@ void Renderer::drawPoint(Vec2 P, Rgba color)
 {
     v_.clear();
 
-    for (Uint8 i = 0; i < getPointPrecision(); ++i)
+    for (Uint32 i = 0; i < getPointPrecision(); ++i)
     {
         v_.emplace_back(P + pointOffsets_[i]);
     }
-- 
2.43.0


From 6e65cca5c50914fd31b9c5d1ee997198c427fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:27 +0000
Subject: [PATCH 38/44] fix: drawing a distance constraint whose ends meet
 threw out of the step

---
 include/Simu/app/VisiblePhysics.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/Simu/app/VisiblePhysics.hpp b/include/Simu/app/VisiblePhysics.hpp
index 5a919d8..37f9a11 100644
--- a/include/Simu/app/VisiblePhysics.hpp
+++ b/include/Simu/app/VisiblePhysics.hpp
@@ -196,11 +196,11 @@ protected:
 
         auto points = f.localFixedPoints();
 
-        renderer.drawLine(
-            bodies()[0]->toWorldSpace() * points[0],
-            bodies()[1]->toWorldSpace() * points[1],
-            turquoise
-        );
+        Vec2 A = bodies()[0]->toWorldSpace() * points[0];
+        Vec2 B = bodies()[1]->toWorldSpace() * points[1];
+
+        if (any(A != B))
+            renderer.drawLine(A, B, turquoise);
     }
 };
 
-- 
2.43.0


From d4f58ff64b2bd25d8a35498273f3a71605f03a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:27 +0000
Subject: [PATCH 39/44] fix: contacts were reported at places they never were
 when not solved since they began

---
 include/Simu/physics/Constraint.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/Simu/physics/Constraint.hpp b/include/Simu/physics/Constraint.hpp
index e12393f..bb4aef6 100644
--- a/include/Simu/physics/Constraint.hpp
+++ b/include/Simu/physics/Constraint.hpp
@@ -193,15 +193,18 @@ public:
 
     ContactInfo contactInfo() const
     {
+        // frame_ is only up to date while solving
+        auto frame = manifold_.frameManifold(bodies());
+
         ContactInfo info;
-        info.nContacts = manifold_.nContacts();
+        info.nContacts = frame.nContacts;
 
-        info.refContacts[0] = frame_.contacts[ref][0];
-        info.incContacts[0] = frame_.contacts[inc][0];
-        info.refContacts[1] = frame_.contacts[ref][1];
-        info.incContacts[1] = frame_.contacts[inc][1];
+        info.refContacts[0] = frame.contacts[ref][0];
+        info.incContacts[0] = frame.contacts[inc][0];
+        info.refContacts[1] = frame.contacts[ref][1];
+        info.incContacts[1] = frame.contacts[inc][1];
 
-        info.normal = frame_.normal;
+        info.normal = frame.normal;
 
         return info;
     }
-- 
2.43.0


From c9ffad701e7e2f4a0fba01f9866a355808260dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:54 +0000
Subject: [PATCH 40/44] revert: contacts were already reported at their current
 places

This reverts d4f58ff: contact manifolds are refreshed before they can be read, nothing was wrong.
---
 include/Simu/physics/Constraint.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/Simu/physics/Constraint.hpp b/include/Simu/physics/Constraint.hpp
index bb4aef6..e12393f 100644
--- a/include/Simu/physics/Constraint.hpp
+++ b/include/Simu/physics/Constraint.hpp
@@ -193,18 +193,15 @@ public:
 
     ContactInfo contactInfo() const
     {
-        // frame_ is only up to date while solving
-        auto frame = manifold_.frameManifold(bodies());
-
         ContactInfo info;
-        info.nContacts = frame.nContacts;
+        info.nContacts = manifold_.nContacts();
 
-        info.refContacts[0] = frame.contacts[ref][0];
-        info.incContacts[0] = frame.contacts[inc][0];
-        info.refContacts[1] = frame.contacts[ref][1];
-        info.incContacts[1] = frame.contacts[inc][1];
+        info.refContacts[0] = frame_.contacts[ref][0];
+        info.incContacts[0] = frame_.contacts[inc][0];
+        info.refContacts[1] = frame_.contacts[ref][1];
+        info.incContacts[1] = frame_.contacts[inc][1];
 
-        info.normal = frame.normal;
+        info.normal = frame_.normal;
 
         return info;
     }
-- 
2.43.0


From b373c6972876f175dd8a0219d0654b32b634b828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:50 +0000
Subject: [PATCH 41/44] fix: a contact that lost a collider hid the contact of
 a collider made in its place

---
 include/Simu/physics/World.hpp | 13 +++----------
 src/Simu/physics/World.cpp     | 28 ++++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/include/Simu/physics/World.hpp b/include/Simu/physics/World.hpp
index 1c8b3f2..43281c7 100644
--- a/include/Simu/physics/World.hpp
+++ b/include/Simu/physics/World.hpp
@@ -418,7 +418,8 @@ private:
         bool hit = false;
     };
 
-    typedef std::unordered_map<
+    // Contacts that died may share the colliders of a live one until the next cleanup.
+    typedef std::unordered_multimap<
         std::array<simu::Collider*, 2>,
         ContactStatus,
         std::hash<std::array<simu::Collider*, 2>>,
@@ -443,15 +444,7 @@ private:
     };
 
     ContactList::iterator
-    inContacts(const std::array<simu::Collider*, 2>& colliders)
-    {
-        auto asIs = contacts_.find(colliders);
-        if (asIs != contacts_.end())
-            return asIs;
-        else
-            return contacts_.find(std::array<simu::Collider*, 2>{
-                colliders[1], colliders[0]});
-    }
+    inContacts(const std::array<simu::Collider*, 2>& colliders);
 
     ColliderTree colliderTree_{bAlloc_};
 
diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index 838d723..1c2cc7f 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -144,6 +144,27 @@ void World::unlinkContact(ContactConstraint* contact)
     }
 }
 
+typename World::ContactList::iterator
+World::inContacts(const std::array<simu::Collider*, 2>& colliders)
+{
+    // When a contact died although its bodies live, its colliders may be gone
+    //  and others may have been made in their place.
+    auto isStale = [](const ContactConstraint& c) {
+        return c.isDead() && !c.bodies()[0]->isDead() && !c.bodies()[1]->isDead();
+    };
+
+    const std::array<simu::Collider*, 2> swapped{colliders[1], colliders[0]};
+    for (const auto& key : {colliders, swapped})
+    {
+        auto [it, end] = contacts_.equal_range(key);
+        for (; it != end; ++it)
+            if (!isStale(*it->second.existingContact))
+                return it;
+    }
+
+    return contacts_.end();
+}
+
 void World::applyForces(float dt)
 {
     struct ApplyForce
@@ -321,8 +342,11 @@ void World::updateBodies(float dt)
         auto contact = inContacts(colliders);
 
         if (contact == contacts_.end())
-            contacts_[colliders] = ContactStatus{
-                makeContactConstraint(*colliders[0], *colliders[1]), true};
+            contacts_.emplace(
+                colliders,
+                ContactStatus{
+                    makeContactConstraint(*colliders[0], *colliders[1]), true}
+            );
         else
             contact->second.hit = true;
     };
-- 
2.43.0


From 57ce3d28eb4fdf7dd3b703365807a3c527f3d177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:31 +0000
Subject: [PATCH 42/44] fix: showing the box spawner's options turned its boxes
 by up to a degree

---
 src/Simu/app/Tool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Simu/app/Tool.cpp b/src/Simu/app/Tool.cpp
index fd11479..ebf7856 100644
--- a/src/Simu/app/Tool.cpp
+++ b/src/Simu/app/Tool.cpp
@@ -108,7 +108,7 @@ void BoxSpawner::doGui()
     constexpr float pi    = std::numbers::pi_v<float>;
     float           ratio = orientation / (2.f * pi);
     orientation -= std::floor(ratio) * pi;
-    int degrees = static_cast<int>(180 * orientation / pi);
+    int degrees = static_cast<int>(std::lround(180 * orientation / pi));
     ImGui::SliderInt("Orientation", &degrees, -180, 180);
     orientation = degrees * pi / 180.f;
 
-- 
2.43.0


From 9938bcd56de6c5d5a5eeddffbbec65e367427e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:14 +0000
Subject: [PATCH 43/44] fix: contacts far from the origin could not be drawn

---
 include/Simu/app/VisiblePhysics.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/Simu/app/VisiblePhysics.hpp b/include/Simu/app/VisiblePhysics.hpp
index 37f9a11..7fdaa31 100644
--- a/include/Simu/app/VisiblePhysics.hpp
+++ b/include/Simu/app/VisiblePhysics.hpp
@@ -126,11 +126,12 @@ protected:
             Rgba white = Rgba::filled(255);
             renderer.drawPoint(info.refContacts[i], white);
 
-            renderer.drawLine(
-                info.refContacts[i],
-                info.refContacts[i] + info.normal * normalLength,
-                white
-            );
+            // far from the origin, the normal may be too short to be drawn
+            Vec2 A = info.refContacts[i];
+            Vec2 B = A + info.normal * normalLength;
+
+            if (any(A != B))
+                renderer.drawLine(A, B, white);
 
             renderer.drawPoint(info.incContacts[i], white);
         }
-- 
2.43.0


From 2dc8e499872776506fd9f665dc28e817f25384a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:25 +0000
Subject: [PATCH 44/44] fix: a body given back by an island left the island
 awake

---
 include/Simu/physics/Island.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Simu/physics/Island.hpp b/include/Simu/physics/Island.hpp
index d183e9c..98c6731 100644
--- a/include/Simu/physics/Island.hpp
+++ b/include/Simu/physics/Island.hpp
@@ -230,6 +230,7 @@ private:
         auto& b      = constraint->bodies();
         Int32 index1 = b[0]->proxyIndex;
         Int32 index2 = b[1]->proxyIndex;
+        bool  awake  = isAwake_;
         bool  added1 = addBody(b[0]);
         bool  added2 = addBody(b[1]);
 
@@ -256,6 +257,9 @@ private:
                 velocities_.pop_back();
             }
 
+            // the removed bodies have no say in whether the Island is awake
+            isAwake_ = awake;
+
             constraint->bodies().endSolve();
             container.pop_back();
 
-- 
2.43.0

