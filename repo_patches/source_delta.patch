From 1b8bc6ef548f18a1e869029a0fbeebe38ee8d76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:09 +0000
Subject: [PATCH 01/45] fix: keep permanent forces when one is set for a body
 with a lower id

ensureSize(id,-1) read and wrote _maxId[-1] and unconditionally resized the
permanent force/torque vectors around the given id, so that setPermF() on a
low id dropped the permanent force of bodies with much higher id.
---
 core/ForceContainerParallel.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/core/ForceContainerParallel.cpp b/core/ForceContainerParallel.cpp
index 8e3c510..b1b521f 100644
--- a/core/ForceContainerParallel.cpp
+++ b/core/ForceContainerParallel.cpp
@@ -25,11 +25,16 @@ void ForceContainer::resizePerm(size_t newSize) {
 #include <omp.h>
 void ForceContainer::ensureSize(Body::id_t id, int threadN) {
   assert(nThreads>omp_get_thread_num());
+  if (threadN<0) {
+    // permanent forces are not stored per thread; only ever grow, values set previously must be kept
+    if (_permForce.size()<=(size_t)id || _permTorque.size()<=(size_t)id) {
+      resizePerm(min((size_t)1.5*(id+100),(size_t)(id+2000)));
+    }
+    return;
+  }
   const Body::id_t idMaxTmp = max(id, _maxId[threadN]);
   _maxId[threadN] = 0;
-  if (threadN<0) {
-    resizePerm(min((size_t)1.5*(idMaxTmp+100),(size_t)(idMaxTmp+2000)));
-  } else if (sizeOfThreads[threadN]<=(size_t)idMaxTmp) {
+  if (sizeOfThreads[threadN]<=(size_t)idMaxTmp) {
     resize(min((size_t)1.5*(idMaxTmp+100),(size_t)(idMaxTmp+2000)),threadN);
   }
 }
@@ -135,7 +140,7 @@ const Vector3r ForceContainer::getForceSingle(Body::id_t id) {
   for(int t=0; t<nThreads; t++) {
     ret+=((size_t)id<sizeOfThreads[t])?_forceData [t][id]:_zero;
   }
-  if (permForceUsed) ret+=_permForce[id];
+  if (permForceUsed && (size_t)id<_permForce.size()) ret+=_permForce[id];
   return ret;
 }
 
@@ -144,7 +149,7 @@ const Vector3r ForceContainer::getTorqueSingle(Body::id_t id) {
   for(int t=0; t<nThreads; t++) {
     ret+=((size_t)id<sizeOfThreads[t])?_torqueData[t][id]:_zero;
   }
-  if (permForceUsed) ret+=_permTorque[id];
+  if (permForceUsed && (size_t)id<_permTorque.size()) ret+=_permTorque[id];
   return ret;
 }
 
-- 
2.43.0


From eb074d232c6ded0cd1c7db7560d1e6fbbd0a26b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:28 +0000
Subject: [PATCH 02/45] fix: no leftover interactions when a body id is freed
 and used again

Interactions of an erased body were left in the interaction map of its
neighbours (and of the erased body itself, which may be appended again), so
after insertAtId() the interaction list and the per-body lookup disagreed and
contacts of the new body could be refused or never detected.
---
 core/BodyContainer.cpp        | 12 ++++++++++--
 core/InteractionContainer.cpp | 22 +++++++++-------------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index 3de4120..a2f5b0e 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -28,13 +28,20 @@ Body::id_t BodyContainer::insert(shared_ptr<Body> b){
 }
 
 Body::id_t BodyContainer::insertAtId(shared_ptr<Body> b, Body::id_t candidate){
-	if(body[candidate] or candidate>=size()) {LOG_ERROR("invalid candidate id"); return -1;}
+	if(candidate<0 or (size_t)candidate>=size() or body[candidate]) {LOG_ERROR("invalid candidate id"); return -1;}
 	const shared_ptr<Scene>& scene=Omega::instance().getScene(); 
+	// interactions of the body formerly having this id may not have been deleted by the collider yet
+	for(size_t i=scene->interactions->size(); i-->0;) {
+		const shared_ptr<Interaction> I=(*scene->interactions)[i];
+		if(I->getId1()==candidate or I->getId2()==candidate) scene->interactions->erase(I->getId1(),I->getId2(),I->linIx);
+	}
 	b->iterBorn=scene->iter;
 	b->timeBorn=scene->time;
 	b->id=candidate;
 	scene->doSort = true; 
-  body[b->id] = b; 
+	// bounds of the former body are of no use to the collider, make it start from scratch
+	scene->interactions->dirty = true;
+	body[b->id] = b; 
 	return b->id;
 }
 
@@ -69,6 +76,7 @@ bool BodyContainer::erase(Body::id_t id, bool eraseClumpMembers){//default is fa
 	for(auto it=b->intrs.begin(), end=b->intrs.end(); it!=end; ++it) {  //Iterate over all body's interactions
 		scene->interactions->requestErase((*it).second);
 	}
+	b->intrs.clear();//the body might be inserted again, under a different id
 	b->id=-1;//else it sits in the python scope without a chance to be inserted again
 	body[id].reset();
 	return true;
diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 97052b5..67109bb 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -57,24 +57,20 @@ bool InteractionContainer::erase(Body::id_t id1,Body::id_t id2, int linPos){
 	
 	const shared_ptr<Body>& b1((*bodies)[id1]);
 	const shared_ptr<Body>& b2((*bodies)[id2]);
-	int linIx=-1;
-	if(!b1) linIx=linPos;
-	else {
+	int linIx=linPos;
+	// remove the interaction from both bodies which (still) exist, we also erase from linIntrs below
+	if(b1) {
 		Body::MapId2IntrT::iterator I(b1->intrs.find(id2));
-		if(I==b1->intrs.end()) linIx=linPos;
-		else {
+		if(I!=b1->intrs.end()) {
 			linIx=I->second->linIx;
 			assert(linIx==linPos);
-			//erase from body, we also erase from linIntrs below
 			b1->intrs.erase(I);
-			if (b2) { 
-				Body::MapId2IntrT::iterator I2(b2->intrs.find(id1));
-				if (not(I2==b2->intrs.end())) { 
-					b2->intrs.erase(I2); 
-				}
-			}
 		}
 	}
+	if(b2) {
+		Body::MapId2IntrT::iterator I2(b2->intrs.find(id1));
+		if(I2!=b2->intrs.end()) b2->intrs.erase(I2);
+	}
 	if(linIx<0) {
 		LOG_ERROR("InteractionContainer::erase: attempt to delete interaction with a deleted body (the definition of linPos in the call to erase() should fix the problem) for  ##"+boost::lexical_cast<string>(id1)+"+"+boost::lexical_cast<string>(id2));
 		return false;}
@@ -92,7 +88,7 @@ const shared_ptr<Interaction>& InteractionContainer::find(Body::id_t id1,Body::i
 	assert(bodies);
 	if (id1>id2) swap(id1,id2); 
 	// those checks could be perhaps asserts, but pyInteractionContainer has no access to the body container...
-	if(id2>=(Body::id_t)bodies->size()){ empty=shared_ptr<Interaction>(); return empty; }
+	if(id1<0 || id2>=(Body::id_t)bodies->size()){ empty=shared_ptr<Interaction>(); return empty; }
 	const shared_ptr<Body>& b1((*bodies)[id1]);
 	if(!b1) { empty=shared_ptr<Interaction>(); return empty; }
 	Body::MapId2IntrT::iterator I(b1->intrs.find(id2));
-- 
2.43.0


From 424931d33725bcf8ca41042edf53d169d45e821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:28 +0000
Subject: [PATCH 03/45] fix: O.interactions.has() crashed for a pair with an
 erased body

---
 py/wrapper/yadeWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index fc42921..fbef1de 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -457,7 +457,7 @@ class pyInteractionContainer{
 		const shared_ptr<InteractionContainer> proxee;
 		pyInteractionContainer(const shared_ptr<InteractionContainer>& _proxee): proxee(_proxee){}
 		pyInteractionIterator pyIter(){return pyInteractionIterator(proxee);}
-		bool has(Body::id_t id1, Body::id_t id2){return proxee->found(id1,id2);}
+		bool has(Body::id_t id1, Body::id_t id2){return (bool)proxee->find(id1,id2);}
 		shared_ptr<Interaction> pyGetitem(vector<Body::id_t> id12){
 			//if(!PySequence_Check(id12.ptr())) throw invalid_argument("Key must be a tuple");
 			//if(py::len(id12)!=2) throw invalid_argument("Key must be a 2-tuple: id1,id2.");
-- 
2.43.0


From 0ebbcbb0c5d23e79067097eb9d9179026f95485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:28 +0000
Subject: [PATCH 04/45] fix: O.stopAtTime could not be set to a non-integer
 time

---
 py/wrapper/yadeWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index fbef1de..a501c3b 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -625,7 +625,7 @@ class pyOmega{
 	long stopAtIter_get(){return OMEGA.getScene()->stopAtIter; }
 	void stopAtIter_set(long s){OMEGA.getScene()->stopAtIter=s; }
 	Real stopAtTime_get(){return OMEGA.getScene()->stopAtTime; }
-	void stopAtTime_set(long s){OMEGA.getScene()->stopAtTime=s; }
+	void stopAtTime_set(Real s){OMEGA.getScene()->stopAtTime=s; }
 
 
 	bool timingEnabled_get(){return TimingInfo::enabled;}
-- 
2.43.0


From a19fb204a40847b7a29066c6efe01caa690f2da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:33 +0000
Subject: [PATCH 05/45] fix: addToClump() with a clump or member of another
 clump lost the members

Members of the merged clump were reset to standalone when the merged clump was
erased (while still being listed in the new one), and naming two members of the
same clump returned early, without deleting that clump.
---
 core/Clump.cpp             | 1 +
 py/wrapper/yadeWrapper.cpp | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index 8cb5699..8c62a42 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -33,6 +33,7 @@ void Clump::add(const shared_ptr<Body>& clumpBody, const shared_ptr<Body>& subBo
 			clump->members[memberId]=Se3r();// meaningful values will be put in by Clump::updateProperties
 			//LOG_DEBUG("Added body #"<<memberId->id<<" to clump #"<<clumpBody->id);
 		}
+		subClump->members.clear();// these do not belong to subClump anymore, deleting it must not touch them
 		//LOG_DEBUG("Clump #"<<subClump->id<<" will be erased.");// see addToClump() in yadeWrapper.cpp
 	}
 	else{	// subBody must be a standalone!
diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index a501c3b..648bc91 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -185,14 +185,14 @@ class pyBodyContainer{
 		FOREACH(Body::id_t bid, bids) {
 			shared_ptr<Body> bp = Body::byId(bid,scene);		// get body pointer
 			if (bp->isClump()){
-				if (bp == clp) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" and clump "+boost::lexical_cast<string>(cid)+" are the same bodies. Body was not added.").c_str()); return;}
+				if (bp == clp) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" and clump "+boost::lexical_cast<string>(cid)+" are the same bodies. Body was not added.").c_str()); continue;}
 				Clump::add(clp,bp);//add clump bid to clump cid
 				eraseList.push_back(bid);
 			}
 			else if (bp->isClumpMember()){
 				Body::id_t bpClumpId = bp->clumpId;
 				shared_ptr<Body> bpClumpPointer = Body::byId(bpClumpId,scene);
-				if (bpClumpPointer == clp) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" is already a clump member of clump "+boost::lexical_cast<string>(cid)+". Body was not added.").c_str()); return;} 
+				if (bpClumpPointer == clp) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" is already a clump member of clump "+boost::lexical_cast<string>(cid)+". Body was not added.").c_str()); continue;} 
 				Clump::add(clp,bpClumpPointer);//add clump bpClumpId to clump cid
 				eraseList.push_back(bpClumpId);
 			}
-- 
2.43.0


From 01a7e692e9b050714d00935fde70a6e4517bc365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:33 +0000
Subject: [PATCH 06/45] fix: O.bodies.erase() with an id out of range crashed

---
 core/BodyContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index a2f5b0e..123c4b8 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -46,7 +46,7 @@ Body::id_t BodyContainer::insertAtId(shared_ptr<Body> b, Body::id_t candidate){
 }
 
 bool BodyContainer::erase(Body::id_t id, bool eraseClumpMembers){//default is false (as before)
-	if(!body[id]) return false;
+	if(!exists(id)) return false;
 	const shared_ptr<Body>& b=Body::byId(id);
 	if ((b) and (b->isClumpMember())) {
 		const shared_ptr<Body> clumpBody=Body::byId(b->clumpId);
-- 
2.43.0


From d2466f33364e41e1192de91686dda9dc306f03ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:17 +0000
Subject: [PATCH 07/45] fix: NewtonIntegrator.mask also keeps the orientation
 of aspherical bodies

---
 pkg/dem/NewtonIntegrator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/NewtonIntegrator.cpp b/pkg/dem/NewtonIntegrator.cpp
index ab1aaa2..1538852 100644
--- a/pkg/dem/NewtonIntegrator.cpp
+++ b/pkg/dem/NewtonIntegrator.cpp
@@ -258,10 +258,11 @@ void NewtonIntegrator::leapfrogAsphericalRotate(State* state, const Body::id_t&
 	Vector3r angVel_b_half = l_b_half.cwiseQuotient(state->inertia); // local angular velocity at time n+1/2
 	if (densityScaling) angVel_b_half*=state->densityScaling;
 	const Quaternionr dotQ_half=DotQ(angVel_b_half,Q_half); // dQ/dt at time n+1/2
-	state->ori=Quaternionr(state->ori.coeffs()+dt*dotQ_half.coeffs()); // Q at time n+1
+	const bool selected=((mask<=0) or Body::byId(id)->maskCompatible(mask)); // bodies excluded by the mask keep their orientation
+	if(selected) state->ori=Quaternionr(state->ori.coeffs()+dt*dotQ_half.coeffs()); // Q at time n+1
 	state->angVel=state->ori*angVel_b_half; // global angular velocity at time n+1/2
 
-	if(scene->forces.getMoveRotUsed() && scene->forces.getRot(id)!=Vector3r::Zero()) {
+	if(selected && scene->forces.getMoveRotUsed() && scene->forces.getRot(id)!=Vector3r::Zero()) {
 		Vector3r r(scene->forces.getRot(id));
 		Real norm=r.norm(); r/=norm;
 		Quaternionr q(AngleAxisr(norm,r));
-- 
2.43.0


From d101f0e8fdc7adcbdab9d236ab81faeafeae7013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:10 +0000
Subject: [PATCH 08/45] fix: O.engines assigned between steps was overridden by
 an assignment made during the previous step

---
 py/wrapper/yadeWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index 648bc91..d265d1e 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -731,7 +731,7 @@ class pyOmega{
 	vector<shared_ptr<Engine> > engines_get(void){assertScene(); Scene* scene=OMEGA.getScene().get(); return scene->_nextEngines.empty()?scene->engines:scene->_nextEngines;}
 	void engines_set(const vector<shared_ptr<Engine> >& egs){
 		assertScene(); Scene* scene=OMEGA.getScene().get();
-		if(scene->subStep<0) scene->engines=egs; // not inside the engine loop right now, ok to update directly
+		if(scene->subStep<0) { scene->engines=egs; scene->_nextEngines.clear(); } // not inside the engine loop right now, ok to update directly; replaces what an engine might have assigned during the last step
 		else scene->_nextEngines=egs; // inside the engine loop, update _nextEngines; O.engines picks that up automatically, and Scene::moveToNextTimestep will put them in place of engines at the start of the next loop
 		mapLabeledEntitiesToVariables();
 	}
-- 
2.43.0


From 5f315d05eea9a2422e5ea4743bb79fc309cdef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:47 +0000
Subject: [PATCH 09/45] fix: a run did not stop at stopAtTime unless a step
 ended at exactly that time

---
 core/SimulationFlow.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/SimulationFlow.cpp b/core/SimulationFlow.cpp
index c91a742..684b85a 100644
--- a/core/SimulationFlow.cpp
+++ b/core/SimulationFlow.cpp
@@ -21,8 +21,9 @@ void SimulationFlow::singleAction()
 		LOG_INFO("Sub-stepping disabled when running simulation continuously.");
 		scene->subStepping=false;
 	}
+	const Real timeBefore=scene->time;
 	scene->moveToNextTimeStep();
 	if(scene->stopAtIter>0 && scene->iter==scene->stopAtIter) setTerminate(true);
-	if(scene->stopAtTime>0 && scene->time==scene->stopAtTime) setTerminate(true);
+	if(scene->stopAtTime>0 && timeBefore<scene->stopAtTime && scene->time>=scene->stopAtTime) setTerminate(true);
 };
 
-- 
2.43.0


From a4a0ba10bb73bcb0ec26dba450853d66a2ba07f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:02 +0000
Subject: [PATCH 10/45] fix: periodic engine added after the first period ran
 at its first call without initRun

---
 pkg/common/PeriodicEngines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/common/PeriodicEngines.hpp b/pkg/common/PeriodicEngines.hpp
index 3843311..6be4d04 100644
--- a/pkg/common/PeriodicEngines.hpp
+++ b/pkg/common/PeriodicEngines.hpp
@@ -24,7 +24,7 @@ class PeriodicEngine:  public GlobalEngine {
 			}
 			
 			if (iterNow<iterLast) nDone=0;//handle O.resetTime(), all counters will be initialized again
-			if((nDo<0 || nDone<nDo) &&
+			if(nDone>0 && (nDo<0 || nDone<nDo) && // the first call only starts the period (see below)
 				((virtPeriod>0 && virtNow-virtLast>=virtPeriod) ||
 				 (realPeriod>0 && realNow-realLast>=realPeriod) ||
 				 (iterPeriod>0 && iterNow-iterLast>=iterPeriod))){
-- 
2.43.0


From 8d47dc53550d59b22fcebecb49b3011c6fc941cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:24 +0000
Subject: [PATCH 11/45] fix: workers not intersecting the master do not send it
 forces (they were received later, outdated)

---
 py/mpy.py           | 3 ++-
 py/mpy_bisection.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/mpy.py b/py/mpy.py
index 0f278f7..b54320c 100644
--- a/py/mpy.py
+++ b/py/mpy.py
@@ -356,7 +356,8 @@ def isendRecvForces():
 			forces0=[[id,O.forces.f(id),O.forces.t(id)] for id in  O.subD.mirrorIntersections[0]]
 			#wprint ("worker "+str(rank)+": sending "+str(len(forces0))+" "+str("forces to 0 "))
 			#O.freqs.append(comm.isend(forces0, dest=0, tag=_FORCES_))
-			comm.send(forces0, dest=0, tag=_FORCES_)
+			#master only listens to the subdomains it intersects, any other message would stay in the queue and be received, outdated, after another split
+			if len(forces0)>0: comm.send(forces0, dest=0, tag=_FORCES_)
 		else: #master
 			receiveForces(O.subD.intersections[0])
 
diff --git a/py/mpy_bisection.py b/py/mpy_bisection.py
index afcfa93..f490acd 100644
--- a/py/mpy_bisection.py
+++ b/py/mpy_bisection.py
@@ -365,7 +365,8 @@ def isendRecvForces():
 			forces0=[[id,O.forces.f(id),O.forces.t(id)] for id in  O.subD.mirrorIntersections[0]]
 			#wprint ("worker "+str(rank)+": sending "+str(len(forces0))+" "+str("forces to 0 "))
 			#O.freqs.append(comm.isend(forces0, dest=0, tag=_FORCES_))
-			comm.send(forces0, dest=0, tag=_FORCES_)
+			#master only listens to the subdomains it intersects, any other message would stay in the queue and be received, outdated, after another split
+			if len(forces0)>0: comm.send(forces0, dest=0, tag=_FORCES_)
 		else: #master
 			receiveForces(O.subD.intersections[0])
 
-- 
2.43.0


From df98c429963b3a13e5d8fdcb817a4cecb2baac66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:41 +0000
Subject: [PATCH 12/45] fix: contact point of a sphere centred inside a box
 ignored the periodic shift

---
 pkg/dem/Ig2_Box_Sphere_ScGeom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp b/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
index 24a1884..57b5520 100644
--- a/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
+++ b/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
@@ -81,8 +81,8 @@ bool Ig2_Box_Sphere_ScGeom::go(const shared_ptr<Shape>& cm1, const shared_ptr<Sh
 		 *
 		 *
 		 */
-		pt1 = se32.position+normal*minCBoxDist;
-		pt2 = se32.position-normal*s->radius;
+		pt1 = se32.position+shift2+normal*minCBoxDist;
+		pt2 = se32.position+shift2-normal*s->radius;
 		Vector3r normal = pt1-pt2; normal.normalize();
 		bool isNew=!c->geom;
 		if (isNew) scm = shared_ptr<ScGeom>(new ScGeom());
-- 
2.43.0


From 3b14bae2c30b021a9308a3c5e3f329ac82e2f6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:41 +0000
Subject: [PATCH 13/45] fix: shear of a sphere centred inside a box was
 infinite or reversed (sphere-sphere correction applied)

---
 pkg/dem/Ig2_Box_Sphere_ScGeom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp b/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
index 57b5520..c06cb56 100644
--- a/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
+++ b/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
@@ -96,7 +96,7 @@ bool Ig2_Box_Sphere_ScGeom::go(const shared_ptr<Shape>& cm1, const shared_ptr<Sh
 		scm->radius1 = s->radius;
 		scm->radius2 = s->radius;
 		c->geom = scm;
-		scm->precompute(state1,state2,scene,c,normal,isNew,shift2,true);
+		scm->precompute(state1,state2,scene,c,normal,isNew,shift2,false);// as outside: the correction for sphere-sphere contacts is singular when the centre is one radius deep
 	} else { // outside
 		Vector3r cOnBox_box = boxAxisT*cOnBox_boxLocal; // projection of sphere's center on closest box surface - relative to box's origin, but GLOBAL orientation!
 		Vector3r cOnBox_sphere = cOnBox_box-relPos21; // same, but origin in sphere's center
-- 
2.43.0


From b4449e62335f752a46759d1d4716e406b9a8571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:23 +0000
Subject: [PATCH 14/45] fix: O.tmpToFile takes (fileName, mark) as documented,
 and compresses .gz

The C++ function had the arguments in the opposite order of the documented
(and registered) keyword names, and a file named *.gz was written without
compression although O.load expects it to be compressed.
---
 py/wrapper/yadeWrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index d265d1e..57b0f36 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -663,10 +663,11 @@ class pyOmega{
 	void saveTmp(string mark="", bool quiet=false){ save(":memory:"+mark,quiet);}
 	void loadTmp(string mark="", bool quiet=false){ load(":memory:"+mark,quiet);}
 	py::list lsTmp(){ py::list ret; typedef pair<std::string,string> strstr; FOREACH(const strstr& sim,OMEGA.memSavedSimulations){ string mark=sim.first; boost::algorithm::replace_first(mark,":memory:",""); ret.append(mark); } return ret; }
-	void tmpToFile(string mark, string filename){
+	void tmpToFile(string filename, string mark){
 		if(OMEGA.memSavedSimulations.count(":memory:"+mark)==0) throw runtime_error("No memory-saved simulation named "+mark);
 		boost::iostreams::filtering_ostream out;
 		if(boost::algorithm::ends_with(filename,".bz2")) out.push(boost::iostreams::bzip2_compressor());
+		if(boost::algorithm::ends_with(filename,".gz")) out.push(boost::iostreams::gzip_compressor());
 		out.push(boost::iostreams::file_sink(filename));
 		if(!out.good()) throw runtime_error("Error while opening file `"+filename+"' for writing.");
 		LOG_INFO("Saving :memory:"<<mark<<" to "<<filename);
-- 
2.43.0


From a6ca472e348f18d73f8982804064cd94eb1fdee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:23 +0000
Subject: [PATCH 15/45] fix: keep Interaction.iterBorn when a simulation is
 loaded

InteractionContainer::insert overwrote the loaded value with the iteration
of the scene being replaced.
---
 core/InteractionContainer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 67109bb..2290444 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -145,7 +145,9 @@ void InteractionContainer::postLoad__calledFromScene(const shared_ptr<BodyContai
 		if (!(*bodies)[id1] || !(*bodies)[id2]) {
 			return;
 		} else {
+			const long iterBorn=I->iterBorn; // insert() would overwrite the loaded value
 			insert(I);
+			I->iterBorn=iterBorn;
 		}
 	}
 	interaction.clear();
-- 
2.43.0


From c14af6b977b2706d402a2dca1106b0a9cd5f7361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:23 +0000
Subject: [PATCH 16/45] fix: GlobalStiffnessTimeStepper remembers across
 save/load that it has run

computedOnce was lost, hence the time step was updated in the first step
after loading regardless of timeStepUpdateInterval, and the loaded simulation
did not continue like the original one.
---
 pkg/dem/GlobalStiffnessTimeStepper.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/dem/GlobalStiffnessTimeStepper.hpp b/pkg/dem/GlobalStiffnessTimeStepper.hpp
index 94de675..2dd13a9 100644
--- a/pkg/dem/GlobalStiffnessTimeStepper.hpp
+++ b/pkg/dem/GlobalStiffnessTimeStepper.hpp
@@ -29,8 +29,7 @@ class GlobalStiffnessTimeStepper : public TimeStepper
 		void computeStiffnesses(Scene*);
 
 		Real		newDt;
-		bool		computedSomething,
- 				computedOnce;
+		bool		computedSomething;
 		void findTimeStepFromBody(const shared_ptr<Body>& body, Scene * ncb);
 	
 	public :
@@ -46,8 +45,8 @@ class GlobalStiffnessTimeStepper : public TimeStepper
 			((Real,timestepSafetyCoefficient,0.8,,"safety factor between the minimum eigen-period and the final assigned dt (less than 1)"))
 			((bool,densityScaling,false,,"|yupdate| don't modify this value if you don't plan to modify the scaling factor manually for some bodies. In most cases, it is enough to set :yref:`NewtonIntegrator::densityScaling` and let this one be adjusted automatically."))
 			((Real,targetDt,1,,"if :yref:`NewtonIntegrator::densityScaling` is active, this value will be used as the simulation  timestep and the scaling will use this value of dt as the target value. The value of targetDt is arbitrary and should have no effect in the result in general. However if some bodies have imposed velocities, for instance, they will move more or less per each step depending on this value."))
-			((bool,viscEl,false,,"To use with :yref:`ViscElPhys`. if True, evaluate separetly the minimum eigen-period in the problem considering only the elastic contribution on one hand (spring only), and only the viscous contribution on the other hand (dashpot only). Take then the minimum of the two and use the safety coefficient :yref:`GlobalStiffnessTimestepper::timestepSafetyCoefficient` to take into account the possible coupling between the two contribution.")),
-			computedOnce=false;)
+			((bool,viscEl,false,,"To use with :yref:`ViscElPhys`. if True, evaluate separetly the minimum eigen-period in the problem considering only the elastic contribution on one hand (spring only), and only the viscous contribution on the other hand (dashpot only). Take then the minimum of the two and use the safety coefficient :yref:`GlobalStiffnessTimestepper::timestepSafetyCoefficient` to take into account the possible coupling between the two contribution."))
+			((bool,computedOnce,false,Attr::hidden,"whether dt has been computed already; saved, so that a loaded simulation updates dt in the same iterations as if it had continued")),)
 		DECLARE_LOGGER;
 };
 
-- 
2.43.0


From 024abf5e04838151270b2ae16fcb5733a5d9e7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:23 +0000
Subject: [PATCH 17/45] fix: setCohesionNow is not applied a second time after
 loading

The iteration in which cohesion was assigned was not saved; the first step
after loading assigned cohesion again, re-creating bonds broken meanwhile.
---
 pkg/dem/CohesiveFrictionalContactLaw.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/dem/CohesiveFrictionalContactLaw.hpp b/pkg/dem/CohesiveFrictionalContactLaw.hpp
index 9d8016c..41995be 100644
--- a/pkg/dem/CohesiveFrictionalContactLaw.hpp
+++ b/pkg/dem/CohesiveFrictionalContactLaw.hpp
@@ -141,7 +141,6 @@ class Ip2_CohFrictMat_CohFrictMat_CohFrictPhys : public IPhysFunctor
 		virtual void go(	const shared_ptr<Material>& b1,
 					const shared_ptr<Material>& b2,
 					const shared_ptr<Interaction>& interaction);
-		int cohesionDefinitionIteration;
 
 		YADE_CLASS_BASE_DOC_ATTRS_CTOR(Ip2_CohFrictMat_CohFrictMat_CohFrictPhys,IPhysFunctor,
 		"Generates cohesive-frictional interactions with moments, used in the contact law :yref:`Law2_ScGeom6D_CohFrictPhys_CohesionMoment`. The normal/shear stiffness and friction definitions are the same as in :yref:`Ip2_FrictMat_FrictMat_FrictPhys`, check the documentation there for details.\n\nAdhesions related to the normal and the shear components are calculated from :yref:`CohFrictMat::normalCohesion` ($C_n$) and :yref:`CohFrictMat::shearCohesion` ($C_s$). For particles of size $R_1$,$R_2$ the adhesion will be $a_i=C_i min(R_1,R_2)^2$, $i=n,s$.\n\nTwist and rolling stiffnesses are proportional to the shear stiffness through dimensionless factors alphaKtw and alphaKr, such that the rotational stiffnesses are defined by $k_s \\alpha_i R_1 R_2$, $i=tw\\,r$",
@@ -150,8 +149,8 @@ class Ip2_CohFrictMat_CohFrictMat_CohFrictPhys : public IPhysFunctor
 		((shared_ptr<MatchMaker>,normalCohesion,,,"Instance of :yref:`MatchMaker` determining tensile strength"))
 		((shared_ptr<MatchMaker>,shearCohesion,,,"Instance of :yref:`MatchMaker` determining cohesive part of the shear strength (a frictional term might be added depending on :yref:`CohFrictPhys::cohesionDisablesFriction`)"))
 		((shared_ptr<MatchMaker>,frictAngle,,,"Instance of :yref:`MatchMaker` determining how to compute interaction's friction angle. If ``None``, minimum value is used."))
+		((int,cohesionDefinitionIteration,-1,Attr::hidden,"iteration in which :yref:`setCohesionNow<Ip2_CohFrictMat_CohFrictMat_CohFrictPhys.setCohesionNow>` is in effect; saved, so that cohesion is not assigned once more after loading"))
 		,
-		cohesionDefinitionIteration = -1;
 		);
 	FUNCTOR2D(CohFrictMat,CohFrictMat);
 };
-- 
2.43.0


From 3be5821efe55128564b922c61ea2afdcb71a3628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:23 +0000
Subject: [PATCH 18/45] fix: ParallelEngine does not use more threads than
 storage was allocated for

With OMP_NUM_THREADS=1 (yade -j1) the default of 2 threads made engines add
forces to per-thread storage of the ForceContainer which does not exist.
---
 pkg/common/ParallelEngine.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/common/ParallelEngine.cpp b/pkg/common/ParallelEngine.cpp
index e4f8814..c4c9962 100644
--- a/pkg/common/ParallelEngine.cpp
+++ b/pkg/common/ParallelEngine.cpp
@@ -15,7 +15,9 @@ void ParallelEngine::action(){
 	#ifdef YADE_OPENMP
 		//nested parallel regions are disabled by default on some platforms, we enable them since some of the subengine may be also parallel
 		omp_set_nested(1);
-		#pragma omp parallel for num_threads(ompThreads)
+		// never more threads than what per-thread storage (ForceContainer) was allocated for
+		const int nThreads=ompThreads>0?std::min(ompThreads,omp_get_max_threads()):omp_get_max_threads();
+		#pragma omp parallel for num_threads(nThreads)
 
 	#endif
 	for(int i=0; i<size; i++){
-- 
2.43.0


From 3f1367c73bf7004c4753bee27d358cc22696d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:03 +0000
Subject: [PATCH 19/45] fix: sceneToString and tmpToString return bytes; in
 Python 3 the binary data raised UnicodeDecodeError

---
 py/wrapper/yadeWrapper.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index 57b0f36..d9c7dbe 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -673,9 +673,11 @@ class pyOmega{
 		LOG_INFO("Saving :memory:"<<mark<<" to "<<filename);
 		out<<OMEGA.memSavedSimulations[":memory:"+mark];
 	}
-	string tmpToString(string mark){
+	// saved scenes are binary data, which is not valid unicode (str in python 3)
+	static py::object toBytes(const string& s){ return py::object(py::handle<>(PyBytes_FromStringAndSize(s.data(),s.size()))); }
+	py::object tmpToString(string mark){
 		if(OMEGA.memSavedSimulations.count(":memory:"+mark)==0) throw runtime_error("No memory-saved simulation named "+mark);
-		return OMEGA.memSavedSimulations[":memory:"+mark];
+		return toBytes(OMEGA.memSavedSimulations[":memory:"+mark]);
 	}
 
 	void reset(){OMEGA.stop(); OMEGA.reset(); }
@@ -691,11 +693,11 @@ class pyOmega{
 	shared_ptr<Scene> scene_get(){ return OMEGA.getScene(); }
 	void scene_set(const shared_ptr<Scene>& source){ Py_BEGIN_ALLOW_THREADS; reset(); Py_END_ALLOW_THREADS; assertScene(); OMEGA.setScene(source); }
 	
-	string sceneToString(){
+	py::object sceneToString(){
 		ostringstream oss;
 		yade::ObjectIO::save<decltype(OMEGA.getScene()),boost::archive::binary_oarchive>(oss,"scene",OMEGA.getScene());
 		oss.flush();
-		return oss.str();
+		return toBytes(oss.str());
 	}
 	void stringToScene(const string &sstring, string mark=""){
 		Py_BEGIN_ALLOW_THREADS; OMEGA.stop(); Py_END_ALLOW_THREADS;
-- 
2.43.0


From 81eeccc2267e700510f9a896e4eeaa84ac1c2957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:03 +0000
Subject: [PATCH 20/45] fix: dumpDispatchMatrix2D ran out of bounds when the
 two hierarchies have different sizes

---
 lib/multimethods/DynLibDispatcher.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/multimethods/DynLibDispatcher.hpp b/lib/multimethods/DynLibDispatcher.hpp
index ae09e32..3f01fd5 100644
--- a/lib/multimethods/DynLibDispatcher.hpp
+++ b/lib/multimethods/DynLibDispatcher.hpp
@@ -172,7 +172,7 @@ class DynLibDispatcher
 		/*! Dump 2d dispatch matrix to given stream. */
 		std::ostream& dumpDispatchMatrix2D(std::ostream& out, const string& prefix=""){
 			for(size_t i=0; i<callBacks.size(); i++) {
-				for(size_t j=0; j<callBacks.size(); j++) {
+				for(size_t j=0; j<callBacks[i].size(); j++) {
 					if(callBacks[i][j]) out<<prefix<<i<<"+"<<j<<" -> "<<callBacks[i][j]->getClassName()<<std::endl;
 				}
 			}
-- 
2.43.0


From 1a67821f640600fd51f7f2ae08b4c16508a16fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:03 +0000
Subject: [PATCH 21/45] fix: dispatch does not depend on earlier look-ups;
 remembered functors are not declarations, ambiguity is reported every time

---
 lib/multimethods/DynLibDispatcher.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/multimethods/DynLibDispatcher.hpp b/lib/multimethods/DynLibDispatcher.hpp
index 3f01fd5..0fc8669 100644
--- a/lib/multimethods/DynLibDispatcher.hpp
+++ b/lib/multimethods/DynLibDispatcher.hpp
@@ -103,7 +103,8 @@ class DynLibDispatcher
 	typedef typename Matrix< BaseClassList >::ResultInt MatrixIntType;
 	MatrixType callBacks;        // multidimensional matrix that stores functors ( 1D, 2D, 3D, 4D, ....)
 	MatrixIntType callBacksInfo; // multidimensional matrix for extra information about functors in the matrix
-	                             // currently used to remember if it is reversed functor
+	                             // bit 0: reversed functor; bit 1: not declared for these types, but found for their base types and remembered
+	enum { REVERSED=1, REMEMBERED=2 };
 
 	public:
 		DynLibDispatcher()
@@ -137,7 +138,7 @@ class DynLibDispatcher
 		shared_ptr<Executor> getFunctor2D(shared_ptr<BaseClass1>& base1, shared_ptr<BaseClass2>& base2, bool& swap){
 			int ix1, ix2;
 			if(!locateMultivirtualFunctor2D(ix1,ix2,base1,base2)) return shared_ptr<Executor>();
-			swap=(bool)(callBacksInfo[ix1][ix2]);
+			swap=(bool)(callBacksInfo[ix1][ix2] & REVERSED);
 			return callBacks[ix1][ix2];
 		}
 
@@ -339,18 +340,20 @@ class DynLibDispatcher
 					if(ix2<0) maxDp2=dp2;
 					if(ix1<0 || ix2<0) continue; // hierarchy height exceeded in either dimension
 					distTooBig=false;
-					if(callBacks[ix1][ix2]){
+					if(callBacks[ix1][ix2] && !(callBacksInfo[ix1][ix2] & REMEMBERED)){ // functors which are only remembered here were declared farther away
 						if(foundIx1!=-1 && callBacks[foundIx1][foundIx2]!=callBacks[ix1][ix2]){ // we found a callback, but there already was one at this distance and it was different from the current one
 							cerr<<__FILE__<<":"<<__LINE__<<": ambiguous 2d dispatch ("<<"arg1="<<base1->getClassName()<<", arg2="<<base2->getClassName()<<", distance="<<dist<<"), dispatch matrix:"<<endl;
 							dumpDispatchMatrix2D(cerr,"AMBIGUOUS: "); throw runtime_error("Ambiguous dispatch.");
 						}
 						foundIx1=ix1; foundIx2=ix2;
-						callBacks[index1][index2]=callBacks[ix1][ix2];
-						callBacksInfo[index1][index2]=callBacksInfo[ix1][ix2];
 						_DISP_TRACE("Found callback ["<<ix1<<"]["<<ix2<<"] → "<<callBacks[ix1][ix2]->getClassName());
 					}
 				}
-				if(foundIx1!=-1) return true;
+				if(foundIx1!=-1){
+					callBacksInfo[index1][index2]=callBacksInfo[foundIx1][foundIx2] | REMEMBERED;
+					callBacks[index1][index2]=callBacks[foundIx1][foundIx2];
+					return true;
+				}
 				if(distTooBig){
 					_DISP_TRACE("Undefined dispatch, dist="<<dist);
 					return false; /* undefined dispatch */
@@ -397,7 +400,7 @@ class DynLibDispatcher
 			int index1, index2;
 			if( locateMultivirtualFunctor2D(index1,index2,base1,base2) )
 			{
-				if(callBacksInfo[index1][index2])// reversed
+				if(callBacksInfo[index1][index2] & REVERSED)// reversed
 				{
 					using CallTraits=InvocationTraits<autoSymmetry, BaseClass1, BaseClass2, Args...> ;
 					return CallTraits::doDispatch( callBacks[index1][index2] , base1, base2, args...);
-- 
2.43.0


From 40bea45097da7e66d451e56381e23b9d1f76b606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 22/45] fix: GlobalStiffnessTimeStepper: viscous estimate of a
 body without contacts read an unset value

---
 pkg/dem/GlobalStiffnessTimeStepper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/GlobalStiffnessTimeStepper.cpp b/pkg/dem/GlobalStiffnessTimeStepper.cpp
index 6f71cda..7b0cfa8 100644
--- a/pkg/dem/GlobalStiffnessTimeStepper.cpp
+++ b/pkg/dem/GlobalStiffnessTimeStepper.cpp
@@ -39,7 +39,7 @@ void GlobalStiffnessTimeStepper::findTimeStepFromBody(const shared_ptr<Body>& bo
 			}
 		}
 	}
-	Real dt; 
+	Real dt=Mathr::MAX_REAL;
 	if(!sdec || stiffness==Vector3r::Zero()){
 		// No interaction on this body, return. If using density scaline fallback to PWaveTimestep-like equation for dt.
 		if (densityScaling) {
-- 
2.43.0


From 451ecd45d58e4e37ef4260938fba55e78ac1728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 23/45] fix: GlobalStiffnessTimeStepper: viscosities were not
 allocated when viscEl is switched on later

---
 pkg/dem/GlobalStiffnessTimeStepper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/GlobalStiffnessTimeStepper.cpp b/pkg/dem/GlobalStiffnessTimeStepper.cpp
index 7b0cfa8..c6a9a27 100644
--- a/pkg/dem/GlobalStiffnessTimeStepper.cpp
+++ b/pkg/dem/GlobalStiffnessTimeStepper.cpp
@@ -150,9 +150,9 @@ void GlobalStiffnessTimeStepper::computeStiffnesses(Scene* rb){
 	if(size<rb->bodies->size()){
 		size=rb->bodies->size();
 		stiffnesses.resize(size); Rstiffnesses.resize(size);
-		if (viscEl == true){
-			viscosities.resize(size); Rviscosities.resize(size);
-			}
+	}
+	if(viscEl && viscosities.size()<size){
+		viscosities.resize(size); Rviscosities.resize(size);
 	}
 	/* reset stored values */
 	memset(& stiffnesses[0],0,sizeof(Vector3r)*size);
-- 
2.43.0


From f22b012ecea7c3cb01b687f24435b2652fd01454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 24/45] fix: unbalancedForce ignored forces on members of a
 clump under gravity

---
 pkg/dem/Shop_01.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/Shop_01.cpp b/pkg/dem/Shop_01.cpp
index 31a79a0..0c62962 100644
--- a/pkg/dem/Shop_01.cpp
+++ b/pkg/dem/Shop_01.cpp
@@ -129,7 +129,7 @@ Real Shop::unbalancedForce(bool useMaxForce, Scene* _rb){
 	FOREACH(const shared_ptr<Body>& b, *rb->bodies){
 		if(!b || b->isClumpMember() || !b->isDynamic()) continue;
 		currF=(rb->forces.getForce(b->id)+b->state->mass*gravity).norm();
-		if(b->isClump() && currF==0){ // this should not happen unless the function is called by an engine whose position in the loop is before Newton (with the exception of bodies which really have null force), because clumps forces are updated in Newton. Typical triaxial loops are using such ordering unfortunately (triaxEngine before Newton). So, here we make sure that they will get correct unbalance. In the future, it is better for optimality to check unbalancedF inside scripts at the end of loops, so that this "if" is never active.
+		if(b->isClump() && rb->forces.getForce(b->id)==Vector3r::Zero()){ // this should not happen unless the function is called by an engine whose position in the loop is before Newton (with the exception of bodies which really have null force), because clumps forces are updated in Newton. Typical triaxial loops are using such ordering unfortunately (triaxEngine before Newton). So, here we make sure that they will get correct unbalance. In the future, it is better for optimality to check unbalancedF inside scripts at the end of loops, so that this "if" is never active.
 			Vector3r f(rb->forces.getForce(b->id)),m(Vector3r::Zero());
 			b->shape->cast<Clump>().addForceTorqueFromMembers(b->state.get(),rb,f,m);
 			currF=(f+b->state->mass*gravity).norm();
-- 
2.43.0


From bb534fd124d963c5fb96ff22c4a9db719c37c2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 25/45] fix: momentum and angularMomentum counted clump members
 twice

---
 pkg/dem/Shop_01.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/dem/Shop_01.cpp b/pkg/dem/Shop_01.cpp
index 0c62962..b3e3ade 100644
--- a/pkg/dem/Shop_01.cpp
+++ b/pkg/dem/Shop_01.cpp
@@ -189,6 +189,7 @@ Vector3r Shop::momentum() {
 	Vector3r ret = Vector3r::Zero();
 	Scene* scene=Omega::instance().getScene().get();
 	FOREACH(const shared_ptr<Body> b, *scene->bodies){
+		if(b->isClumpMember()) continue; // members are accounted for by their clump
 		ret += b->state->mass * b->state->vel;
 	}
 	return ret;
@@ -199,6 +200,7 @@ Vector3r Shop::angularMomentum(Vector3r origin) {
 	Scene* scene=Omega::instance().getScene().get();
 	Matrix3r T,Iloc;
 	FOREACH(const shared_ptr<Body> b, *scene->bodies){
+		if(b->isClumpMember()) continue; // members are accounted for by their clump
 		ret += (b->state->pos-origin).cross(b->state->mass * b->state->vel);
 		ret += b->state->angMom;
 	}
-- 
2.43.0


From f613f77eec46f2ed447bdbca08c598bd70d2eac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 26/45] fix: getDynamicStress could not return its list, and
 crashed on erased bodies and non-spheres

---
 pkg/dem/Shop_02.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pkg/dem/Shop_02.cpp b/pkg/dem/Shop_02.cpp
index ce98a2a..a320222 100644
--- a/pkg/dem/Shop_02.cpp
+++ b/pkg/dem/Shop_02.cpp
@@ -381,14 +381,13 @@ py::list Shop::getDynamicStress()
 	for(unsigned int i(0);i<scene->bodies->size();i++)
     {
         const shared_ptr<Body>& b = Body::byId(i, scene);
-		Vector3r vFluct = (scene->isPeriodic) ? scene->cell->bodyFluctuationVel(b->state->pos,b->state->vel,scene->cell->velGrad) : b->state->vel;
-		
-        Sphere * s = YADE_CAST<Sphere*>(b->shape.get());
+        Sphere * s = b ? dynamic_cast<Sphere*>(b->shape.get()) : NULL;
         
-        if(s)
-            kineticStressTensors.append(-(3.0/(4.0*M_PI*pow(s->radius,3)))*b->state->mass*vFluct*vFluct.transpose());
-        else
-            kineticStressTensors.append(Matrix3r::Zero());
+        if(s) {
+            Vector3r vFluct = (scene->isPeriodic) ? scene->cell->bodyFluctuationVel(b->state->pos,b->state->vel,scene->cell->velGrad) : b->state->vel;
+            kineticStressTensors.append(Matrix3r(-(3.0/(4.0*M_PI*pow(s->radius,3)))*b->state->mass*vFluct*vFluct.transpose()));
+        } else
+            kineticStressTensors.append(Matrix3r(Matrix3r::Zero()));
 	}
 	
 	return kineticStressTensors;
-- 
2.43.0


From e2501e87320553578cd2d70714ed5875e0833857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 27/45] fix: getTotalDynamicStress: sign, clump members counted
 twice, crash on erased bodies

---
 pkg/dem/Shop_02.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/dem/Shop_02.cpp b/pkg/dem/Shop_02.cpp
index a320222..5a15f48 100644
--- a/pkg/dem/Shop_02.cpp
+++ b/pkg/dem/Shop_02.cpp
@@ -412,9 +412,10 @@ Matrix3r Shop::getTotalDynamicStress(Real volume)
     for(unsigned int i(0);i<scene->bodies->size();i++)
     {
         const shared_ptr<Body>& b = Body::byId(i, scene);
+        if(!b || b->isClumpMember()) continue; // members are accounted for by their clump
 		Vector3r vFluct = (scene->isPeriodic) ? scene->cell->bodyFluctuationVel(b->state->pos,b->state->vel,scene->cell->velGrad) : b->state->vel;
 		
-        kineticStressTensor+=b->state->mass*vFluct*vFluct.transpose();
+        kineticStressTensor-=b->state->mass*vFluct*vFluct.transpose();
 	}
 	
 	return kineticStressTensor/volume;
-- 
2.43.0


From 11cebc2129be86a79f3e90224ab1a806b95a4a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 28/45] fix: bodyIdsContacts listed bodies that are not in
 contact

---
 pkg/dem/Shop_02.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/Shop_02.cpp b/pkg/dem/Shop_02.cpp
index 5a15f48..3ec22ad 100644
--- a/pkg/dem/Shop_02.cpp
+++ b/pkg/dem/Shop_02.cpp
@@ -791,7 +791,7 @@ py::list Shop::getBodyIdsContacts(Body::id_t bodyID) {
 	const shared_ptr<Body>& b = Body::byId(bodyID,scene);
 	
 	for(Body::MapId2IntrT::iterator it=b->intrs.begin(),end=b->intrs.end(); it!=end; ++it) {
-		ret.append((*it).first);
+		if((*it).second->isReal()) ret.append((*it).first);
 	}
 	return ret;
 }
-- 
2.43.0


From f823650118b84d8bb3a1082a204ee1783c89e6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 29/45] fix: sphere files: the clump of one line was carried
 over to lines without one

---
 pkg/dem/Shop_01.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/Shop_01.cpp b/pkg/dem/Shop_01.cpp
index b3e3ade..1c662dd 100644
--- a/pkg/dem/Shop_01.cpp
+++ b/pkg/dem/Shop_01.cpp
@@ -425,7 +425,7 @@ vector<boost::tuple<Vector3r,Real,int> > Shop::loadSpheresFromFile(const string&
 		C=Vector3r(boost::lexical_cast<Real>(tokens[0]),boost::lexical_cast<Real>(tokens[1]),boost::lexical_cast<Real>(tokens[2]));
 		r=boost::lexical_cast<Real>(tokens[3]);
 		for(int j=0; j<3; j++) { minXYZ[j]=(spheres.size()>0?min(C[j]-r,minXYZ[j]):C[j]-r); maxXYZ[j]=(spheres.size()>0?max(C[j]+r,maxXYZ[j]):C[j]+r);}
-		if(tokens.size()==5)clumpId=boost::lexical_cast<int>(tokens[4]);
+		clumpId=(tokens.size()==5?boost::lexical_cast<int>(tokens[4]):-1);
 		spheres.push_back(boost::tuple<Vector3r,Real,int>(C,r,clumpId));
 	}
 	return spheres;
-- 
2.43.0


From 0d1a98ba9591f8d0ae87ffba3e0303df76a151d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 30/45] fix: notInNotch used the wrong distance below the notch

---
 py/pack/_packPredicates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/pack/_packPredicates.cpp b/py/pack/_packPredicates.cpp
index 04d1825..0925f6c 100644
--- a/py/pack/_packPredicates.cpp
+++ b/py/pack/_packPredicates.cpp
@@ -265,7 +265,7 @@ public:
 		if(distDown   >=pad) return true;
 		if(distInPlane<0) return false;
 		if(distUp  >0) return sqrt(pow(distInPlane,2)+pow(distUp,2))>=pad;
-		if(distDown>0) return sqrt(pow(distInPlane,2)+pow(distUp,2))>=pad;
+		if(distDown>0) return sqrt(pow(distInPlane,2)+pow(distDown,2))>=pad;
 		// between both notch planes, closer to the edge than pad (distInPlane<pad)
 		return false;
 	}
-- 
2.43.0


From f3012f4d503a1da14cb5ae902a3ca03bfa67d01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 31/45] fix: symmetric difference of predicates ignored the
 sign of the padding

---
 py/pack/_packPredicates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/pack/_packPredicates.cpp b/py/pack/_packPredicates.cpp
index 0925f6c..acf9a31 100644
--- a/py/pack/_packPredicates.cpp
+++ b/py/pack/_packPredicates.cpp
@@ -88,7 +88,7 @@ PredicateDifference makeDifference(const py::object& A, const py::object& B){ re
 class PredicateSymmetricDifference: public PredicateBoolean{
 	public:
 		PredicateSymmetricDifference(const py::object _A, const py::object _B): PredicateBoolean(_A,_B){}
-		virtual bool operator()(const Vector3r& pt,Real pad) const {bool inA=obj2pred(A)(pt,pad), inB=obj2pred(B)(pt,pad); return (inA && !inB) || (!inA && inB);}
+		virtual bool operator()(const Vector3r& pt,Real pad) const {return (obj2pred(A)(pt,pad) && !obj2pred(B)(pt,-pad)) || (obj2pred(B)(pt,pad) && !obj2pred(A)(pt,-pad));}
 		virtual py::tuple aabb() const { 
 			Vector3r minA,maxA,minB,maxB; 
 			ttuple2vvec(obj2pred(A).aabb(),minA,maxA); 
-- 
2.43.0


From fe588808ba74376042bce638ed423c9cb3f9442d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 32/45] fix: inSpace, inHalfSpace and inConvexPolyhedron could
 not be combined with other predicates

---
 py/pack/pack.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/pack/pack.py b/py/pack/pack.py
index be54fb5..8095922 100644
--- a/py/pack/pack.py
+++ b/py/pack/pack.py
@@ -166,7 +166,9 @@ if not (noPredicate):
   
   class inSpace(Predicate):
     """Predicate returning True for any points, with infinite bounding box."""
-    def __init__(self, _center=Vector3().Zero): self._center=_center
+    def __init__(self, _center=Vector3().Zero):
+      super(inSpace,self).__init__()
+      self._center=_center
     def aabb(self):
       inf=float('inf'); return Vector3(-inf,-inf,-inf),Vector3(inf,inf,inf)
     def center(self): return self._center
@@ -177,6 +179,7 @@ if not (noPredicate):
   class inHalfSpace(Predicate):
     """Predicate returning True  any points, with infinite bounding box."""
     def __init__(self, _center=Vector3().Zero, _dir=Vector3(1,0,0)):
+      super(inHalfSpace,self).__init__()
       self._center = Vector3(_center)
       self._dir = Vector3(_dir)
       assert self._dir.norm() > 0., "Direction has to be nonzero vector"
@@ -205,6 +208,7 @@ if not (noPredicate):
 
   class inConvexPolyhedron(Predicate):
     def __init__(self,planes):
+      super(inConvexPolyhedron,self).__init__()
       self._inHalfSpaces = [inHalfSpace(c,d) for c,d in planes]
       self._min, self._max = self._computeAabb()
     def _computeAabb(self):
-- 
2.43.0


From 8cc0fa0cbb48f76a9ea17592baadc2a9d62f4f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 33/45] fix: SpherePack kept the period of earlier contents, or
 left it unset

---
 pkg/dem/SpherePack.cpp | 13 ++++++++-----
 pkg/dem/SpherePack.hpp |  2 +-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index 5e30fac..f90e944 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -22,6 +22,7 @@ namespace py=boost::python;
 
 void SpherePack::fromList(const py::list& l){
 	pack.clear();
+	cellSize=Vector3r::Zero(); isPeriodic=false;
 	size_t len=py::len(l);
 	for(size_t i=0; i<len; i++){
 		const py::tuple& t=py::extract<py::tuple>(l[i]);
@@ -39,7 +40,7 @@ void SpherePack::fromLists(const vector<Vector3r>& centers, const vector<Real>&
 	for(size_t i=0; i<l; i++){
 		add(centers[i],radii[i]);
 	}
-	cellSize=Vector3r::Zero();
+	cellSize=Vector3r::Zero(); isPeriodic=false;
 }
 
 py::list SpherePack::toList() const {
@@ -52,7 +53,9 @@ void SpherePack::fromFile(string file) {
 	typedef boost::tuple<Vector3r,Real,int> tupleVector3rRealInt;
 	vector<tupleVector3rRealInt> ss;
 	Vector3r mn,mx;
+	cellSize=Vector3r::Zero();
 	ss=Shop::loadSpheresFromFile(file,mn,mx,&cellSize);
+	isPeriodic=(cellSize!=Vector3r::Zero());
 	pack.clear();
 	FOREACH(const tupleVector3rRealInt& s, ss) pack.push_back(Sph(boost::get<0>(s),boost::get<1>(s),boost::get<2>(s)));
 }
@@ -77,10 +80,9 @@ void SpherePack::fromSimulation() {
 		if(!intSph) continue;
 		pack.push_back(Sph(b->state->pos,intSph->radius,(b->isClumpMember()?b->clumpId:-1)));
 	}
-	if(scene->isPeriodic) {
-		cellSize=scene->cell->getSize();
-		isPeriodic = true;
-	}
+	isPeriodic=scene->isPeriodic;
+	cellSize=Vector3r::Zero();
+	if(isPeriodic) cellSize=scene->cell->getSize();
 }
 
 long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz, int num, bool periodic, Real porosity, const vector<Real>& psdSizes, const vector<Real>& psdCumm, bool distributeMass, int seed, Matrix3r hSize){
@@ -329,6 +331,7 @@ long SpherePack::makeClumpCloud(const Vector3r& mn, const Vector3r& mx, const ve
 	}
 	std::list<ClumpInfo> clumpInfos;
 	Vector3r size=mx-mn;
+	isPeriodic=periodic;
 	if(periodic)(cellSize=size);
 	const int maxTry=200;
 	int nGen=0; // number of clumps generated
diff --git a/pkg/dem/SpherePack.hpp b/pkg/dem/SpherePack.hpp
index 43123f0..5663a1e 100644
--- a/pkg/dem/SpherePack.hpp
+++ b/pkg/dem/SpherePack.hpp
@@ -36,7 +36,7 @@ public:
 	Real appliedPsdScaling;//a scaling factor that can be applied on size distribution
 	bool isPeriodic;
 	SpherePack(): cellSize(Vector3r::Zero()), appliedPsdScaling(1.), isPeriodic(0) {};
-	SpherePack(const boost::python::list& l):cellSize(Vector3r::Zero()){ fromList(l); }
+	SpherePack(const boost::python::list& l): cellSize(Vector3r::Zero()), appliedPsdScaling(1.), isPeriodic(0) { fromList(l); }
 	// add single sphere
 	void add(const Vector3r& c, Real r){ pack.push_back(Sph(c,r)); }
 
-- 
2.43.0


From 5fe9a71c717d267a907f12155181363e272f2aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 34/45] fix: SpherePack.rotate distorted the packing for an
 axis not of unit length

---
 pkg/dem/SpherePack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/SpherePack.hpp b/pkg/dem/SpherePack.hpp
index 5663a1e..622a1b4 100644
--- a/pkg/dem/SpherePack.hpp
+++ b/pkg/dem/SpherePack.hpp
@@ -94,7 +94,7 @@ public:
       LOG_WARN("Periodicity reset when rotating periodic packing (non-zero cellSize="<<cellSize<<")"); 
       cellSize=Vector3r::Zero(); 
     }
-		Vector3r mid=midPt(); Quaternionr q(AngleAxisr(angle,axis)); FOREACH(Sph& s, pack) s.c=q*(s.c-mid)+mid;
+		Vector3r mid=midPt(); Quaternionr q(AngleAxisr(angle,axis.normalized())); FOREACH(Sph& s, pack) s.c=q*(s.c-mid)+mid;
 	}
 	void rotateAroundOrigin(const Quaternionr& rot){
 		if(cellSize!=Vector3r::Zero()){ 
-- 
2.43.0


From bf9308029e0fce9626be0ce651f42f1c00d9af37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 35/45] fix: SpherePack.scale by a negative factor gave a
 negative period

---
 pkg/dem/SpherePack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/SpherePack.hpp b/pkg/dem/SpherePack.hpp
index 622a1b4..396fcd9 100644
--- a/pkg/dem/SpherePack.hpp
+++ b/pkg/dem/SpherePack.hpp
@@ -105,7 +105,7 @@ public:
 	}
 	void scale(Real scale){ 
 		Vector3r mid=midPt(); 
-		cellSize*=scale; 
+		cellSize*=std::abs(scale); 
 		FOREACH(Sph& s, pack) {
 			s.c=scale*(s.c-mid)+mid; 
 			s.r*=std::abs(scale); 
-- 
2.43.0


From 808865c9191cd16fd34803ff3be7982a57d14765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 36/45] fix: makeCloud and makeClumpCloud ignored the seed
 after the first call

---
 pkg/dem/SpherePack.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index f90e944..f119d21 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -87,8 +87,8 @@ void SpherePack::fromSimulation() {
 
 long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz, int num, bool periodic, Real porosity, const vector<Real>& psdSizes, const vector<Real>& psdCumm, bool distributeMass, int seed, Matrix3r hSize){
 	isPeriodic = periodic;
-	static boost::minstd_rand randGen(seed!=0?seed:(int)TimingInfo::getNow(/* get the number even if timing is disabled globally */ true));
-	static boost::variate_generator<boost::minstd_rand&, boost::uniform_real<Real> > rnd(randGen, boost::uniform_real<Real>(0,1));
+	boost::minstd_rand randGen(seed!=0?seed:(int)TimingInfo::getNow(/* get the number even if timing is disabled globally */ true));
+	boost::variate_generator<boost::minstd_rand&, boost::uniform_real<Real> > rnd(randGen, boost::uniform_real<Real>(0,1));
 	vector<Real> psdRadii; // holds plain radii (rather than diameters), scaled down in some situations to get the target number
 	vector<Real> psdCumm2; // psdCumm but dimensionally transformed to match mass distribution	
 	Vector3r size=mx-mn;
@@ -336,8 +336,8 @@ long SpherePack::makeClumpCloud(const Vector3r& mn, const Vector3r& mx, const ve
 	const int maxTry=200;
 	int nGen=0; // number of clumps generated
 	// random point coordinate generator, with non-zero margins if aperiodic
- 	static boost::minstd_rand randGen(seed!=0?seed:(int)TimingInfo::getNow(/* get the number even if timing is disabled globally */ true));
- 	static boost::variate_generator<boost::minstd_rand&, boost::uniform_real<Real> > rnd(randGen, boost::uniform_real<Real>(0,1));
+ 	boost::minstd_rand randGen(seed!=0?seed:(int)TimingInfo::getNow(/* get the number even if timing is disabled globally */ true));
+ 	boost::variate_generator<boost::minstd_rand&, boost::uniform_real<Real> > rnd(randGen, boost::uniform_real<Real>(0,1));
 	while(nGen<num || num<0){
 		int clumpChoice=(int)(rnd()*(clumps.size()-1e-20));
 		int tries=0;
-- 
2.43.0


From 0d9c1cf5ef85b4dac1762891050a04aa8bec9462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 37/45] fix: makeCloud accepted psdCumm not ending at 1 (read
 out of bounds)

---
 pkg/dem/SpherePack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index f119d21..aaefe5b 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -119,7 +119,7 @@ long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz,
 		err=(mode>=0); mode=RDIST_PSD;
 		if(psdSizes.size()!=psdCumm.size()) throw invalid_argument(("SpherePack.makeCloud: psdSizes and psdCumm must have same dimensions ("+boost::lexical_cast<string>(psdSizes.size())+"!="+boost::lexical_cast<string>(psdCumm.size())).c_str());
 		if(psdSizes.size()<=1) throw invalid_argument("SpherePack.makeCloud: psdSizes must have at least 2 items");
-		if((*psdCumm.begin())!=0. && (*psdCumm.rbegin())!=1.) throw invalid_argument("SpherePack.makeCloud: first and last items of psdCumm *must* be exactly 0 and 1.");
+		if((*psdCumm.begin())!=0. || (*psdCumm.rbegin())!=1.) throw invalid_argument("SpherePack.makeCloud: first and last items of psdCumm *must* be exactly 0 and 1.");
 		psdRadii.reserve(psdSizes.size());
 		for(size_t i=0; i<psdSizes.size(); i++) {
 			psdRadii.push_back(/* radius, not diameter */ .5*psdSizes[i]);
-- 
2.43.0


From 36de17211c37b9574f7edf928748ab1d4a9f859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 38/45] fix: makeCloud on a non-empty packing returned the
 total count, and a retry dropped the earlier spheres

---
 pkg/dem/SpherePack.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index aaefe5b..d49efc4 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -87,6 +87,7 @@ void SpherePack::fromSimulation() {
 
 long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz, int num, bool periodic, Real porosity, const vector<Real>& psdSizes, const vector<Real>& psdCumm, bool distributeMass, int seed, Matrix3r hSize){
 	isPeriodic = periodic;
+	const size_t initSize=pack.size(); // spheres which were in the packing before
 	boost::minstd_rand randGen(seed!=0?seed:(int)TimingInfo::getNow(/* get the number even if timing is disabled globally */ true));
 	boost::variate_generator<boost::minstd_rand&, boost::uniform_real<Real> > rnd(randGen, boost::uniform_real<Real>(0,1));
 	vector<Real> psdRadii; // holds plain radii (rather than diameters), scaled down in some situations to get the target number
@@ -242,7 +243,7 @@ long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz,
 						<<i<<" spheres were added, although you requested "<<num
 						<<". Trying again with porosity "<<nextPoro
 						<<". The size distribution is being scaled down");
-					pack.clear();
+					pack.erase(pack.begin()+initSize,pack.end());
 					return makeCloud(mn, mx, -1., rRelFuzz, num, periodic, nextPoro,
 						psdSizes, psdCumm, distributeMass,seed,hSizeFound?hSize:Matrix3r::Zero());
 				} else {
@@ -254,7 +255,7 @@ long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz,
 		}
 	}
 	if (appliedPsdScaling<1) LOG_WARN("The size distribution has been scaled down by a factor pack.appliedPsdScaling="<<appliedPsdScaling);
-	return pack.size();
+	return pack.size()-initSize;
 }
 
 void SpherePack::cellFill(Vector3r vol){
-- 
2.43.0


From 4a6fd54ae8ed6169154fb95d62a409b4727cf970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 39/45] fix: makeCloud placed overlapping spheres in sheared
 cells

---
 pkg/dem/SpherePack.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index d49efc4..12ebdbe 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -98,6 +98,9 @@ long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz,
 	if (hSizeFound && !periodic) LOG_WARN("hSize can be defined only for periodic cells.");
 	Real volume=hSize.determinant();
 	Matrix3r invHsize =hSize.inverse();
+	vector<Vector3r> images; // translations to the neighbour cells, unless the cell is a rectangular box
+	if (hSizeFound && (hSize.transpose()*hSize).eval()!=Matrix3r((hSize.transpose()*hSize).diagonal().asDiagonal()))
+		for(int i=-1; i<=1; i++) for(int j=-1; j<=1; j++) for(int k=-1; k<=1; k++) if(i||j||k) images.push_back(hSize*Vector3r(i,j,k));
 	Real area=std::abs(size[0]*size[2]+size[0]*size[1]+size[1]*size[2]);//2 terms will be null if one coordinate is 0, the other is the area
 	if (!volume) {
 		if (hSizeFound) throw invalid_argument("The period defined by hSize has null length in at least one direction, this is not supported. Define flat boxes via min-max and keep hSize undefined if you want a 2D packing.");
@@ -219,7 +222,10 @@ long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz,
 							if (std::abs(c1c2[axis])<std::abs(c1c2[axis] - Mathr::Sign(c1c2[axis]))) dr[axis]=c1c2[axis];
 							else dr[axis] = c1c2[axis] - Mathr::Sign(c1c2[axis]);
 						}
-						dr=hSize*dr;//now in cartesian coordinates
+						const Vector3r dr0=hSize*dr;//now in cartesian coordinates
+						dr=dr0;
+						// in a sheared cell, the closest image can be one of those around the one found
+						FOREACH(const Vector3r& im, images) if ((dr0+im).squaredNorm()<dr.squaredNorm()) dr=dr0+im;
 					}
 					if(pow(pack[j].r+r,2) >= dr.squaredNorm()) {
 						overlap=true;
-- 
2.43.0


From 031c0f67876146550972a441c8ad2e46e8ff7265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 40/45] fix: makeCloud placed spheres larger than the box
 outside of it, and recursed without end for num=1

---
 pkg/dem/SpherePack.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index 12ebdbe..01ec813 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -137,7 +137,7 @@ long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz,
 			if(i>0 && (psdSizes[i-1]>psdSizes[i] || psdCumm[i-1]>psdCumm[i])) throw invalid_argument("SpherePack:makeCloud: psdSizes and psdCumm must be both non-decreasing.");
 		}
 		// check the consistency between sizes, num, and poro if all three are imposed. If target number will not fit in (1-poro)*volume, scale down particles sizes
-		if (num>1){
+		if (num>0){
 			appliedPsdScaling=1;
 			if(distributeMass) {
 				if (psdCumm2[psdSizes.size()-1]<num) appliedPsdScaling=pow(psdCumm2[psdSizes.size()-1]/num,1./3.);
@@ -181,7 +181,9 @@ long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz,
 					r=psdRadii[piece]+norm*(psdRadii[piece+1]-psdRadii[piece]);}
 		}
 		// try to put the sphere into a free spot
-		for(t=0; t<maxTry; ++t) {
+		bool tooBig=false; // no place at all for a sphere larger than the box
+		if(!periodic) for(int axis=0; axis<3; axis++) if(size[axis] && size[axis]<2*r) tooBig=true;
+		for(t=(tooBig?maxTry:0); t<maxTry; ++t) {
 			Vector3r c = Vector3r::Zero();
 			if(!periodic) {
 				//we handle 2D with the special case size[axis]==0
-- 
2.43.0


From d3087349572df8efa279b6c1b173bbfb834855e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 41/45] fix: cellRepeat dropped clump ids of the copies

---
 pkg/dem/SpherePack.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index 01ec813..3014501 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -278,13 +278,16 @@ void SpherePack::cellRepeat(Vector3i count){
 	if(count[0]<=0 || count[1]<=0 || count[2]<=0){ throw std::invalid_argument("Repeat count components must be positive."); }
 	size_t origSize=pack.size();
 	pack.reserve(origSize*count[0]*count[1]*count[2]);
+	int maxClumpId=-1; FOREACH(const Sph& s, pack) maxClumpId=max(maxClumpId,s.clumpId);
 	for(int i=0; i<count[0]; i++){
 		for(int j=0; j<count[1]; j++){
 			for(int k=0; k<count[2]; k++){
 				if((i==0) && (j==0) && (k==0)) continue; // original cell
 				Vector3r off(cellSize[0]*i,cellSize[1]*j,cellSize[2]*k);
+				// clumps of each copy get numbers of their own
+				const int clumpOff=(maxClumpId+1)*((i*count[1]+j)*count[2]+k);
 				for(size_t l=0; l<origSize; l++){
-					const Sph& s=pack[l]; pack.push_back(Sph(s.c+off,s.r));
+					const Sph& s=pack[l]; pack.push_back(Sph(s.c+off,s.r,s.clumpId<0?s.clumpId:s.clumpId+clumpOff));
 				}
 			}
 		}
-- 
2.43.0


From bc205d132795eaf04f6ba6f339ceed2245447bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 42/45] fix: makeClumpCloud: sphere range off by one (read out
 of bounds), recentring in the wrong direction

---
 pkg/dem/SpherePack.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index 3014501..badebee 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -331,7 +331,7 @@ long SpherePack::makeClumpCloud(const Vector3r& mn, const Vector3r& mx, const ve
 	vector<Real> boundRad; // squared radii of bounding sphere for each clump
 	FOREACH(const shared_ptr<SpherePack>& c, _clumps){
 		SpherePack c2(*c); 
-		c2.translate(c2.midPt()); //recenter
+		c2.translate(-c2.midPt()); //recenter
 		clumps.push_back(c2);
 		Real r=0;
 		FOREACH(const Sph& s, c2.pack) r=max(r,s.c.norm()+s.r);
@@ -419,7 +419,7 @@ long SpherePack::makeClumpCloud(const Vector3r& mn, const Vector3r& mx, const ve
 			#endif
 
 			// add the clump, if no collisions
-			/*number clumps consecutively*/ ci.clumpId=nGen; ci.center=pos; ci.rad=rad; ci.minId=pack.size(); ci.maxId=pack.size()+C.pack.size(); 
+			/*number clumps consecutively*/ ci.clumpId=nGen; ci.center=pos; ci.rad=rad; ci.minId=pack.size(); ci.maxId=pack.size()+C.pack.size()-1; 
 			FOREACH(const Sph& s, C.pack){
 				pack.push_back(Sph(s.c,s.r,ci.clumpId));
 			}
-- 
2.43.0


From bda7625b8db44f296664fff3ef4b42fd11eed1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:24 +0000
Subject: [PATCH 43/45] fix: makeClumpCloud placed clumps onto spheres already
 in the packing, and used their clump numbers again

---
 pkg/dem/SpherePack.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index badebee..455b371 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -342,6 +342,12 @@ long SpherePack::makeClumpCloud(const Vector3r& mn, const Vector3r& mx, const ve
 		FOREACH(const Sph& s, c2.pack) maxR=max(maxR,s.r); // keep track of maximum sphere radius
 	}
 	std::list<ClumpInfo> clumpInfos;
+	// spheres which were in the packing before: not to be overlapped, and their clump numbers not to be used again
+	int firstClumpId=0;
+	for(size_t i=0; i<pack.size(); i++){
+		ClumpInfo ci; ci.clumpId=pack[i].clumpId; ci.center=pack[i].c; ci.rad=pack[i].r; ci.minId=ci.maxId=i;
+		clumpInfos.push_back(ci); firstClumpId=max(firstClumpId,ci.clumpId+1);
+	}
 	Vector3r size=mx-mn;
 	isPeriodic=periodic;
 	if(periodic)(cellSize=size);
@@ -419,7 +425,7 @@ long SpherePack::makeClumpCloud(const Vector3r& mn, const Vector3r& mx, const ve
 			#endif
 
 			// add the clump, if no collisions
-			/*number clumps consecutively*/ ci.clumpId=nGen; ci.center=pos; ci.rad=rad; ci.minId=pack.size(); ci.maxId=pack.size()+C.pack.size()-1; 
+			/*number clumps consecutively*/ ci.clumpId=firstClumpId+nGen; ci.center=pos; ci.rad=rad; ci.minId=pack.size(); ci.maxId=pack.size()+C.pack.size()-1; 
 			FOREACH(const Sph& s, C.pack){
 				pack.push_back(Sph(s.c,s.r,ci.clumpId));
 			}
-- 
2.43.0


From 3dda36aa3eb461dc92020ab20673264a8a2d5a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:59 +0000
Subject: [PATCH 44/45] fix: O.reset during a run that calls Python engines
 waited for itself for ever

---
 py/wrapper/yadeWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index d9c7dbe..64dd160 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -680,7 +680,7 @@ class pyOmega{
 		return toBytes(OMEGA.memSavedSimulations[":memory:"+mark]);
 	}
 
-	void reset(){OMEGA.stop(); OMEGA.reset(); }
+	void reset(){Py_BEGIN_ALLOW_THREADS; OMEGA.stop(); Py_END_ALLOW_THREADS; OMEGA.reset(); }
 	void resetThisScene(){Py_BEGIN_ALLOW_THREADS; OMEGA.stop(); Py_END_ALLOW_THREADS; OMEGA.resetCurrentScene(); OMEGA.createSimulationLoop();}
 	void resetCurrentScene(){Py_BEGIN_ALLOW_THREADS; OMEGA.stop(); Py_END_ALLOW_THREADS; OMEGA.resetCurrentScene(); OMEGA.createSimulationLoop();}
 	void resetTime(){ OMEGA.getScene()->iter=0; OMEGA.getScene()->time=0; OMEGA.timeInit(); }
-- 
2.43.0


From 3d3f54e10d6df5c7f3684b7341963d8a455d83d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:59 +0000
Subject: [PATCH 45/45] fix: assigning the scene destroyed Python objects
 without holding the interpreter lock

---
 py/wrapper/yadeWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index 64dd160..1fe726e 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -691,7 +691,7 @@ class pyOmega{
 	
 	// Scene manipulation in multithread situations as python object or as a string (e.g. FEMxDEM, MPI, ...)
 	shared_ptr<Scene> scene_get(){ return OMEGA.getScene(); }
-	void scene_set(const shared_ptr<Scene>& source){ Py_BEGIN_ALLOW_THREADS; reset(); Py_END_ALLOW_THREADS; assertScene(); OMEGA.setScene(source); }
+	void scene_set(const shared_ptr<Scene>& source){ reset(); assertScene(); OMEGA.setScene(source); }
 	
 	py::object sceneToString(){
 		ostringstream oss;
-- 
2.43.0

