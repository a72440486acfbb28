From 529f3bb47546e3da8fd6fe24297025b873a3c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 01/65] fix: bulk additions to a unique list no longer keep
 elements already in the list

---
 ecore/abstractelist.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ecore/abstractelist.go b/ecore/abstractelist.go
index 61a12d3..79e8558 100644
--- a/ecore/abstractelist.go
+++ b/ecore/abstractelist.go
@@ -61,8 +61,7 @@ func (list *AbstractEList) getNonDuplicates(collection Collection) Collection {
 			hashSet.Remove(it.Next())
 		}
 	} else {
-		for it := hashSet.Iterator(); it.Next(); {
-			v := it.Value()
+		for _, v := range hashSet.Values() {
 			if collection.Contains(v) {
 				hashSet.Remove(v)
 			}
-- 
2.43.0


From 7258dafef89f08e4d48dd5bdc79a6b57dd4e5c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 02/65] fix: bulk insertion in a list neither writes in the
 array of its argument nor reports wrong positions to list callbacks

---
 ecore/basicelist.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ecore/basicelist.go b/ecore/basicelist.go
index 7874fec..16967ed 100644
--- a/ecore/basicelist.go
+++ b/ecore/basicelist.go
@@ -9,6 +9,10 @@
 
 package ecore
 
+import (
+	"slices"
+)
+
 type listCallBacks interface {
 	DidAdd(index int, elem any)
 
@@ -72,11 +76,12 @@ func (list *BasicEList) doAdd(e any) {
 
 func (list *BasicEList) doAddAll(collection Collection) bool {
 	data := collection.ToArray()
+	size := len(list.data)
 	list.data = append(list.data, data...)
 	// events
 	listCallbacks := list.asEListCallbacks()
 	for i, element := range data {
-		listCallbacks.DidAdd(i, element)
+		listCallbacks.DidAdd(size+i, element)
 	}
 	listCallbacks.DidChange()
 	return len(data) != 0
@@ -94,7 +99,7 @@ func (list *BasicEList) doInsert(index int, e any) {
 
 func (list *BasicEList) doInsertAll(index int, collection Collection) bool {
 	data := collection.ToArray()
-	list.data = append(list.data[:index], append(data, list.data[index:]...)...)
+	list.data = slices.Insert(list.data, index, data...)
 	// events
 	listCallbacks := list.asEListCallbacks()
 	for i, element := range data {
-- 
2.43.0


From 67d9776710f3a89ca1fedeadcd11e60a659d7207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 03/65] fix: moving a list element to an index out of bounds is
 rejected before the list is modified

---
 ecore/basicelist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecore/basicelist.go b/ecore/basicelist.go
index 16967ed..3cea17c 100644
--- a/ecore/basicelist.go
+++ b/ecore/basicelist.go
@@ -11,6 +11,7 @@ package ecore
 
 import (
 	"slices"
+	"strconv"
 )
 
 type listCallBacks interface {
@@ -110,6 +111,9 @@ func (list *BasicEList) doInsertAll(index int, collection Collection) bool {
 }
 
 func (list *BasicEList) doMove(oldIndex, newIndex int) any {
+	if size := len(list.data); newIndex < 0 || newIndex >= size {
+		panic("Index out of bounds: newIndex=" + strconv.Itoa(newIndex) + " size=" + strconv.Itoa(size))
+	}
 	object := list.data[oldIndex]
 	if oldIndex != newIndex {
 		if newIndex < oldIndex {
-- 
2.43.0


From ecda012065a7d0321835660a7d3db44fd2fb0280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 04/65] fix: merging a removal in a multiple removal
 notification keeps every position

---
 ecore/abstractnotification.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecore/abstractnotification.go b/ecore/abstractnotification.go
index e49b2cd..87d22e6 100644
--- a/ecore/abstractnotification.go
+++ b/ecore/abstractnotification.go
@@ -90,7 +90,10 @@ func (notif *AbstractNotification) Merge(eOther ENotification) bool {
 			if eNotif.GetNotifier() == eOther.GetNotifier() &&
 				eNotif.GetFeatureID() == eOther.GetFeatureID() {
 				notificationPosition := eOther.GetPosition()
-				positions := notif.newValue.([]any)
+				positions, isPositions := notif.newValue.([]any)
+				if !isPositions {
+					return false
+				}
 				newPositions := []any{}
 
 				index := 0
@@ -113,10 +116,11 @@ func (notif *AbstractNotification) Merge(eOther ENotification) bool {
 
 				newPositions = append(newPositions, notificationPosition)
 				index++
-				for index < len(positions) {
+				for index <= len(positions) {
 					newPositions = append(newPositions, positions[index-1])
 					index++
 				}
+				notif.position = newPositions[0].(int)
 				notif.oldValue = oldValue
 				notif.newValue = newPositions
 				return true
-- 
2.43.0


From 7218415403f04fe8afe20fe64c2392f66bf8527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 05/65] fix: dynamic many-valued references resolve proxies as
 declared, and lists and inverses use the feature identifiers of the class of
 their object

---
 ecore/abstracteobject.go        | 35 +++++++++++++++++++++++++----
 ecore/basicedatatypelist.go     |  7 ++++++
 ecore/basiceobjectlist.go       | 39 ++++++++++++++++++++++++++-------
 ecore/reflectiveeobject_impl.go |  8 +++++++
 4 files changed, 77 insertions(+), 12 deletions(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index d70dbfa..301876f 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -351,12 +351,18 @@ func (o *AbstractEObject) eDynamicPropertiesCreateMap(feature EStructuralFeature
 			reverseFeatureID = reverseFeature.GetFeatureID()
 		}
 	}
-	return NewBasicEObjectMap(eClass, o.AsEObjectInternal(), feature.GetFeatureID(), reverseFeatureID, feature.IsUnsettable())
+	m := NewBasicEObjectMap(eClass, o.AsEObjectInternal(), feature.GetFeatureID(), reverseFeatureID, feature.IsUnsettable())
+	if ref, isRef := feature.(EReference); isRef {
+		m.EList.(*basicEObjectMapList).feature = ref
+	}
+	return m
 }
 
 func (o *AbstractEObject) eDynamicPropertiesCreateList(feature EStructuralFeature) EList {
 	if attribute, isAttribute := feature.(EAttribute); isAttribute {
-		return NewBasicEDataTypeList(o.AsEObjectInternal(), attribute.GetFeatureID(), attribute.IsUnique())
+		list := NewBasicEDataTypeList(o.AsEObjectInternal(), attribute.GetFeatureID(), attribute.IsUnique())
+		list.feature = feature
+		return list
 	} else if ref, isRef := feature.(EReference); isRef {
 		inverse := false
 		opposite := false
@@ -382,7 +388,10 @@ func (o *AbstractEObject) eDynamicPropertiesCreateList(feature EStructuralFeatur
 				opposite = false
 			}
 		}
-		return NewBasicEObjectList(o.AsEObjectInternal(), ref.GetFeatureID(), reverseFeatureID, containment, inverse, opposite, ref.EIsProxy(), ref.IsUnsettable())
+		list := NewBasicEObjectList(o.AsEObjectInternal(), ref.GetFeatureID(), reverseFeatureID, containment, inverse, opposite, ref.EIsProxy(), ref.IsUnsettable())
+		list.feature = ref
+		list.inverseFeature = reverseFeature
+		return list
 	}
 	return nil
 }
@@ -870,12 +879,30 @@ func (o *AbstractEObject) EBasicRemoveFromContainerFeature(notifications ENotifi
 	if isReference {
 		inverseFeature := reference.GetEOpposite()
 		if containerInternal, _ := objInternal.EInternalContainer().(EObjectInternal); containerInternal != nil && inverseFeature != nil {
-			return containerInternal.EInverseRemove(o.AsEObject(), inverseFeature.GetFeatureID(), notifications)
+			return containerInternal.EInverseRemove(o.AsEObject(), featureIDInObject(containerInternal, inverseFeature), notifications)
 		}
 	}
 	return notifications
 }
 
+// eFeatureIDInClass returns the identifier of a feature in the class of the object. It differs from
+// the identifier of the feature, which is relative to the class declaring it, when the class of the
+// object has several super types
+func (o *AbstractEObject) eFeatureIDInClass(feature EStructuralFeature) int {
+	return o.AsEObject().EClass().GetFeatureID(feature)
+}
+
+func featureIDInObject(object EObject, feature EStructuralFeature) int {
+	if o, isObject := object.(interface {
+		eFeatureIDInClass(EStructuralFeature) int
+	}); isObject {
+		if featureID := o.eFeatureIDInClass(feature); featureID != -1 {
+			return featureID
+		}
+	}
+	return feature.GetFeatureID()
+}
+
 func (o *AbstractEObject) eStructuralFeature(featureName string) EStructuralFeature {
 	eFeature := o.AsEObject().EClass().GetEStructuralFeatureFromName(featureName)
 	if eFeature == nil {
diff --git a/ecore/basicedatatypelist.go b/ecore/basicedatatypelist.go
index ce5f049..90df79f 100644
--- a/ecore/basicedatatypelist.go
+++ b/ecore/basicedatatypelist.go
@@ -4,6 +4,7 @@ type basicEDataTypeList struct {
 	BasicENotifyingList
 	owner     EObjectInternal
 	featureID int
+	feature   EStructuralFeature
 }
 
 func NewBasicEDataTypeList(owner EObjectInternal, featureID int, isUnique bool) *basicEDataTypeList {
@@ -23,6 +24,9 @@ func (list *basicEDataTypeList) GetNotifier() ENotifier {
 
 // GetFeature ...
 func (list *basicEDataTypeList) GetFeature() EStructuralFeature {
+	if list.feature != nil {
+		return list.feature
+	}
 	if list.owner != nil {
 		return list.owner.EClass().GetEStructuralFeature(list.featureID)
 	}
@@ -31,5 +35,8 @@ func (list *basicEDataTypeList) GetFeature() EStructuralFeature {
 
 // GetFeatureID ...
 func (list *basicEDataTypeList) GetFeatureID() int {
+	if list.feature != nil {
+		return featureIDInObject(list.owner, list.feature)
+	}
 	return list.featureID
 }
diff --git a/ecore/basiceobjectlist.go b/ecore/basiceobjectlist.go
index ffcfddd..506b589 100644
--- a/ecore/basiceobjectlist.go
+++ b/ecore/basiceobjectlist.go
@@ -14,6 +14,8 @@ type basicEObjectList struct {
 	owner            EObjectInternal
 	featureID        int
 	inverseFeatureID int
+	feature          EReference
+	inverseFeature   EReference
 	containment      bool
 	inverse          bool
 	opposite         bool
@@ -44,6 +46,9 @@ func (list *basicEObjectList) GetNotifier() ENotifier {
 
 // GetFeature ...
 func (list *basicEObjectList) GetFeature() EStructuralFeature {
+	if list.feature != nil {
+		return list.feature
+	}
 	if list.owner != nil {
 		return list.owner.EClass().GetEStructuralFeature(list.featureID)
 	}
@@ -52,12 +57,15 @@ func (list *basicEObjectList) GetFeature() EStructuralFeature {
 
 // GetFeatureID ...
 func (list *basicEObjectList) GetFeatureID() int {
+	if list.feature != nil {
+		return featureIDInObject(list.owner, list.feature)
+	}
 	return list.featureID
 }
 
 // GetUnResolvedList ...
 func (list *basicEObjectList) GetUnResolvedList() EList {
-	if list.proxies {
+	if list.isProxies() {
 		return newUnResolvedBasicEObjectList(list)
 	}
 	return list
@@ -72,7 +80,7 @@ func (list *basicEObjectList) RemoveAll(collection Collection) bool {
 
 func (list *basicEObjectList) IndexOf(elem any) int {
 	for i, value := range list.data {
-		if value == elem || (list.proxies && list.resolve(i, value) == elem) {
+		if value == elem || (list.isProxies() && list.resolve(i, value) == elem) {
 			return i
 		}
 	}
@@ -84,7 +92,7 @@ func (list *basicEObjectList) doGet(index int) any {
 }
 
 func (list *basicEObjectList) ToArray() []any {
-	if list.proxies {
+	if list.isProxies() {
 		for i := len(list.data) - 1; i >= 0; i-- {
 			list.doGet(i)
 		}
@@ -111,20 +119,35 @@ func (list *basicEObjectList) resolve(index int, object any) any {
 	return object
 }
 
+// isProxies returns true if the proxies of the list are resolved when they are accessed
+func (list *basicEObjectList) isProxies() bool {
+	if list.feature != nil {
+		return list.feature.IsResolveProxies()
+	}
+	return list.proxies
+}
+
 func (list *basicEObjectList) resolveProxy(eObject EObject) EObject {
-	if list.proxies && eObject.EIsProxy() {
+	if list.isProxies() && eObject.EIsProxy() {
 		return list.owner.EResolveProxy(eObject)
 	}
 	return eObject
 }
 
+func (list *basicEObjectList) getInverseFeatureID(object EObjectInternal) int {
+	if list.inverseFeature != nil {
+		return featureIDInObject(object, list.inverseFeature)
+	}
+	return list.inverseFeatureID
+}
+
 func (list *basicEObjectList) inverseAdd(object any, notifications ENotificationChain) ENotificationChain {
 	internal, _ := object.(EObjectInternal)
 	if internal != nil && list.inverse {
 		if list.opposite {
-			return internal.EInverseAdd(list.owner, list.inverseFeatureID, notifications)
+			return internal.EInverseAdd(list.owner, list.getInverseFeatureID(internal), notifications)
 		} else {
-			return internal.EInverseAdd(list.owner, EOPPOSITE_FEATURE_BASE-list.featureID, notifications)
+			return internal.EInverseAdd(list.owner, EOPPOSITE_FEATURE_BASE-list.GetFeatureID(), notifications)
 		}
 	}
 	return notifications
@@ -134,9 +157,9 @@ func (list *basicEObjectList) inverseRemove(object any, notifications ENotificat
 	internal, _ := object.(EObjectInternal)
 	if internal != nil && list.inverse {
 		if list.opposite {
-			return internal.EInverseRemove(list.owner, list.inverseFeatureID, notifications)
+			return internal.EInverseRemove(list.owner, list.getInverseFeatureID(internal), notifications)
 		} else {
-			return internal.EInverseRemove(list.owner, EOPPOSITE_FEATURE_BASE-list.featureID, notifications)
+			return internal.EInverseRemove(list.owner, EOPPOSITE_FEATURE_BASE-list.GetFeatureID(), notifications)
 		}
 	}
 	return notifications
diff --git a/ecore/reflectiveeobject_impl.go b/ecore/reflectiveeobject_impl.go
index 6e0a256..9c3642a 100644
--- a/ecore/reflectiveeobject_impl.go
+++ b/ecore/reflectiveeobject_impl.go
@@ -60,6 +60,14 @@ func (o *ReflectiveEObjectImpl) EDynamicIsSet(dynamicFeatureID int) bool {
 	return o.getProperties()[dynamicFeatureID] != nil
 }
 
+func (o *ReflectiveEObjectImpl) EFeatureID(feature EStructuralFeature) int {
+	return o.EClass().GetFeatureID(feature)
+}
+
+func (o *ReflectiveEObjectImpl) EOperationID(operation EOperation) int {
+	return o.EClass().GetOperationID(operation)
+}
+
 func (o *ReflectiveEObjectImpl) getProperties() []any {
 	if o.properties == nil {
 		o.properties = make([]any, o.EClass().GetFeatureCount())
-- 
2.43.0


From c6032fb37a7956eff9aac81497c35940595c3ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 06/65] fix: compact objects keep their properties when their
 container changes and are no longer proxies without proxy address

---
 ecore/compacteobject_container.go | 2 +-
 ecore/compacteobject_impl.go      | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ecore/compacteobject_container.go b/ecore/compacteobject_container.go
index d06ae9b..08cea3d 100644
--- a/ecore/compacteobject_container.go
+++ b/ecore/compacteobject_container.go
@@ -16,7 +16,7 @@ type CompactEObjectContainer struct {
 
 func (o *CompactEObjectContainer) ESetInternalContainer(newContainer EObject, newContainerFeatureID int) {
 	o.container = newContainer
-	o.flags = newContainerFeatureID<<16 | (o.flags & 0x00FF)
+	o.flags = newContainerFeatureID<<16 | (o.flags & 0xFFFF)
 }
 
 func (o *CompactEObjectContainer) EInternalContainer() EObject {
diff --git a/ecore/compacteobject_impl.go b/ecore/compacteobject_impl.go
index 153ab97..d0bcccd 100644
--- a/ecore/compacteobject_impl.go
+++ b/ecore/compacteobject_impl.go
@@ -202,7 +202,11 @@ func (o *CompactEObjectImpl) EProxyURI() *URI {
 
 // ESetProxyURI ...
 func (o *CompactEObjectImpl) ESetProxyURI(uri *URI) {
-	o.setField(proxy_flag, uri)
+	if uri == nil {
+		o.setField(proxy_flag, nil)
+	} else {
+		o.setField(proxy_flag, uri)
+	}
 }
 
 // EContents ...
@@ -230,7 +234,7 @@ func (o *CompactEObjectImpl) ECrossReferences() EList {
 // ESetContainer ...
 func (o *CompactEObjectImpl) ESetInternalContainer(newContainer EObject, newContainerFeatureID int) {
 	o.setField(container_flag, newContainer)
-	o.flags = newContainerFeatureID<<16 | (o.flags & 0x00FF)
+	o.flags = newContainerFeatureID<<16 | (o.flags & 0xFFFF)
 }
 
 func (o *CompactEObjectImpl) EInternalContainer() EObject {
-- 
2.43.0


From bc1040974dae89959c2c39c98c8bc752a1a11d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 07/65] fix: setting and unsetting a dynamic many-valued
 feature replaces the content of its list

---
 ecore/abstracteobject.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 301876f..a421dd3 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -10,6 +10,7 @@
 package ecore
 
 import (
+	"slices"
 	"strconv"
 	"strings"
 	"unicode"
@@ -449,6 +450,17 @@ func (o *AbstractEObject) eDynamicPropertiesSet(properties EDynamicProperties, d
 		} else if o.ENotificationRequired() {
 			o.ENotify(NewNotificationByFeature(o.AsEObject(), SET, dynamicFeature, newValue, newValue, NO_INDEX))
 		}
+	} else if newList, _ := newValue.(EList); newList != nil && dynamicFeature.IsMany() {
+		// replace the content of the list or of the map
+		list := o.eDynamicPropertiesGet(properties, dynamicFeature, dynamicFeatureID, false).(EList)
+		if list != newList {
+			if objectList, _ := newList.(EObjectList); objectList != nil {
+				newList = objectList.GetUnResolvedList()
+			}
+			newContent := NewImmutableEList(slices.Clone(newList.ToArray()))
+			list.Clear()
+			list.AddAll(newContent)
+		}
 	} else if IsBidirectional(dynamicFeature) || IsContains(dynamicFeature) {
 		// inverse - opposite
 		oldValue := properties.EDynamicGet(dynamicFeatureID)
@@ -589,7 +601,9 @@ func (o *AbstractEObject) eDynamicPropertiesUnset(properties EDynamicProperties,
 	} else if IsBidirectional(dynamicFeature) || IsContains(dynamicFeature) {
 		// inverse - opposite
 		oldValue := properties.EDynamicGet(dynamicFeatureID)
-		if oldValue != nil {
+		if list, _ := oldValue.(EList); list != nil && dynamicFeature.IsMany() {
+			list.Clear()
+		} else if oldValue != nil {
 			var notifications ENotificationChain
 			oldObject, _ := oldValue.(EObject)
 
@@ -630,6 +644,10 @@ func (o *AbstractEObject) eDynamicPropertiesUnset(properties EDynamicProperties,
 		}
 	} else {
 		oldValue := properties.EDynamicGet(dynamicFeatureID)
+		if list, _ := oldValue.(EList); list != nil && dynamicFeature.IsMany() {
+			list.Clear()
+			return
+		}
 		properties.EDynamicUnset(dynamicFeatureID)
 		if o.ENotificationRequired() {
 			o.ENotify(NewNotificationByFeature(o.AsEObject(), UNSET, dynamicFeature, oldValue, nil, NO_INDEX))
-- 
2.43.0


From f946478c6bc657ade5d019433b338fd51e7b5cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 08/65] fix: an empty many-valued dynamic feature is not set

---
 ecore/dynamiceobject_impl.go    | 6 +++++-
 ecore/reflectiveeobject_impl.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ecore/dynamiceobject_impl.go b/ecore/dynamiceobject_impl.go
index bbae8dd..b49debc 100644
--- a/ecore/dynamiceobject_impl.go
+++ b/ecore/dynamiceobject_impl.go
@@ -70,7 +70,11 @@ func (o *DynamicEObjectImpl) EDynamicUnset(dynamicFeatureID int) {
 }
 
 func (o *DynamicEObjectImpl) EDynamicIsSet(dynamicFeatureID int) bool {
-	return o.properties[dynamicFeatureID] != nil
+	value := o.properties[dynamicFeatureID]
+	if list, isList := value.(EList); isList && o.EClass().GetEStructuralFeature(dynamicFeatureID).IsMany() {
+		return !list.Empty()
+	}
+	return value != nil
 }
 
 func (o *DynamicEObjectImpl) EFeatureID(feature EStructuralFeature) int {
diff --git a/ecore/reflectiveeobject_impl.go b/ecore/reflectiveeobject_impl.go
index 9c3642a..f70a796 100644
--- a/ecore/reflectiveeobject_impl.go
+++ b/ecore/reflectiveeobject_impl.go
@@ -57,7 +57,11 @@ func (o *ReflectiveEObjectImpl) EDynamicUnset(dynamicFeatureID int) {
 }
 
 func (o *ReflectiveEObjectImpl) EDynamicIsSet(dynamicFeatureID int) bool {
-	return o.getProperties()[dynamicFeatureID] != nil
+	value := o.getProperties()[dynamicFeatureID]
+	if list, isList := value.(EList); isList && o.EClass().GetEStructuralFeature(dynamicFeatureID).IsMany() {
+		return !list.Empty()
+	}
+	return value != nil
 }
 
 func (o *ReflectiveEObjectImpl) EFeatureID(feature EStructuralFeature) int {
-- 
2.43.0


From 3176f28494ecb9c1b8f76ace375b616a5dc5d064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 09/65] fix: copies and comparisons of objects take inherited
 features into account

---
 ecore/deepcopy.go  | 2 +-
 ecore/deepequal.go | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ecore/deepcopy.go b/ecore/deepcopy.go
index 579ee00..708a62f 100644
--- a/ecore/deepcopy.go
+++ b/ecore/deepcopy.go
@@ -90,7 +90,7 @@ func (dC *deepCopy) copyContainment(eReference EReference, eObject EObject, copy
 
 func (dC *deepCopy) copyReferences() {
 	for eObject, copyEObject := range dC.objects {
-		for it := eObject.EClass().GetEReferences().Iterator(); it.HasNext(); {
+		for it := eObject.EClass().GetEAllReferences().Iterator(); it.HasNext(); {
 			eReference := it.Next().(EReference)
 			if eReference.IsChangeable() && !eReference.IsDerived() && !eReference.IsContainment() && !eReference.IsContainer() {
 				dC.copyReference(eReference, eObject, copyEObject)
diff --git a/ecore/deepequal.go b/ecore/deepequal.go
index 5164919..cd2e7be 100644
--- a/ecore/deepequal.go
+++ b/ecore/deepequal.go
@@ -84,7 +84,7 @@ func (dE *deepEqual) equals(eObj1 EObject, eObj2 EObject) bool {
 	dE.objects[eObj1] = eObj2
 	dE.objects[eObj2] = eObj1
 
-	for it := eClass.GetEStructuralFeatures().Iterator(); it.HasNext(); {
+	for it := eClass.GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
 		if eFeature := it.Next().(EStructuralFeature); !eFeature.IsDerived() && !dE.equalsFeature(eObj1, eObj2, eFeature) {
 			delete(dE.objects, eObj1)
 			delete(dE.objects, eObj2)
@@ -138,7 +138,8 @@ func (dE *deepEqual) equalsFeature(eObj1 EObject, eObj2 EObject, eFeature EStruc
 		}
 		panic("invalid feature type")
 	}
-	return isSet1 == isSet2
+	// the container of an object is not part of its own structure
+	return isSet1 == isSet2 || IsContainer(eFeature)
 }
 
 func (dE *deepEqual) equalsAttribute(eObj1 EObject, eObj2 EObject, eAttribute EAttribute) bool {
-- 
2.43.0


From c34e3b435b2d0f5d14d047b46861ededa33cbece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 10/65] fix: adapters are told when they are removed by
 clearing or setting the adapter list, and may be attached or detached during
 a delivery

---
 ecore/abstractenotifier.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ecore/abstractenotifier.go b/ecore/abstractenotifier.go
index 8046305..3bee049 100644
--- a/ecore/abstractenotifier.go
+++ b/ecore/abstractenotifier.go
@@ -9,6 +9,8 @@
 
 package ecore
 
+import "slices"
+
 type notifierAdapterList struct {
 	BasicEList
 	notifier *AbstractENotifier
@@ -65,6 +67,17 @@ func (l *notifierAdapterList) DidRemove(index int, elem any) {
 	adapter.UnSetTarget(notifier)
 }
 
+func (l *notifierAdapterList) DidSet(index int, newElem any, oldElem any) {
+	l.DidRemove(index, oldElem)
+	l.DidAdd(index, newElem)
+}
+
+func (l *notifierAdapterList) DidClear(oldElems []any) {
+	for i := len(oldElems) - 1; i >= 0; i-- {
+		l.DidRemove(i, oldElems[i])
+	}
+}
+
 type AbstractENotifier struct {
 	interfaces any
 }
@@ -117,8 +130,9 @@ func (notifier *AbstractENotifier) ESetDeliver(value bool) {
 func (notifier *AbstractENotifier) ENotify(notification ENotification) {
 	n := notifier.AsENotifier()
 	if adapters := n.EAdapters(); adapters != nil && n.EDeliver() {
-		for it := adapters.Iterator(); it.HasNext(); {
-			it.Next().(EAdapter).NotifyChanged(notification)
+		// adapters may be added or removed during the delivery
+		for _, adapter := range slices.Clone(adapters.ToArray()) {
+			adapter.(EAdapter).NotifyChanged(notification)
 		}
 	}
 }
-- 
2.43.0


From 3a3876ee85df76eb3484daacb6419166a5c0c53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 11/65] fix: a content adapter with its own interfaces is
 recognised in the adapters of resolved and moved objects

---
 ecore/econtentadapter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecore/econtentadapter.go b/ecore/econtentadapter.go
index bb55613..00f135e 100644
--- a/ecore/econtentadapter.go
+++ b/ecore/econtentadapter.go
@@ -119,7 +119,7 @@ func (adapter *EContentAdapter) handleContainment(notification ENotification) {
 		// Checking here avoids having to check during addAdapter.
 		//
 		oldNotifier, _ := notification.GetOldValue().(ENotifier)
-		if oldNotifier != nil && oldNotifier.EAdapters().Contains(adapter) {
+		if oldNotifier != nil && oldNotifier.EAdapters().Contains(adapter.interfaces) {
 			adapter.removeAdapter(oldNotifier)
 			adapter.addAdapter(notification.GetNewValue().(ENotifier))
 		}
@@ -178,12 +178,12 @@ func (adapter *EContentAdapter) removeAdapterWithChecks(notifier ENotifier, chec
 		if checkContainer || checkResource {
 			if internalEObject, _ := notifier.(EObjectInternal); internalEObject != nil {
 				if checkResource {
-					if internalResource := internalEObject.EInternalResource(); internalResource != nil && internalResource.EAdapters().Contains(adapter) {
+					if internalResource := internalEObject.EInternalResource(); internalResource != nil && internalResource.EAdapters().Contains(adapter.interfaces) {
 						return
 					}
 				}
 				if checkContainer {
-					if internalContainer := internalEObject.EInternalContainer(); internalContainer != nil && internalContainer.EAdapters().Contains(adapter) {
+					if internalContainer := internalEObject.EInternalContainer(); internalContainer != nil && internalContainer.EAdapters().Contains(adapter.interfaces) {
 						return
 					}
 				}
-- 
2.43.0


From 889c1382759901afb7bec86e0ed64a54d1276241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 12/65] fix: derived views of a class hold every inherited
 element once and follow every change of its features, operations and super
 types

---
 ecore/eclass_ext.go | 78 ++++++++++++++++++++++++++++-----------------
 1 file changed, 49 insertions(+), 29 deletions(-)

diff --git a/ecore/eclass_ext.go b/ecore/eclass_ext.go
index 0863fcf..4ed97a6 100644
--- a/ecore/eclass_ext.go
+++ b/ecore/eclass_ext.go
@@ -219,6 +219,18 @@ func (eClass *EClassExt) initOperationToOverrideMap() {
 	eClass.mutex.Unlock()
 }
 
+// appendNew appends to list the elements which it doesn't contain yet:
+// an element inherited through several super types is taken once
+func appendNew(list []any, visited map[any]struct{}, elements ...any) []any {
+	for _, element := range elements {
+		if _, isVisited := visited[element]; !isVisited {
+			visited[element] = struct{}{}
+			list = append(list, element)
+		}
+	}
+	return list
+}
+
 func (eClass *EClassExt) initEAttributes() {
 	eClass.initEAllAttributes()
 }
@@ -241,7 +253,7 @@ func (eClass *EClassExt) initFeaturesSubSet() {
 	if eClass.eContainmentFeatures == nil {
 		containments := []any{}
 		crossReferences := []any{}
-		for itFeature := eClass.GetEStructuralFeatures().Iterator(); itFeature.HasNext(); {
+		for itFeature := eClass.eAllStructuralFeatures.Iterator(); itFeature.HasNext(); {
 			ref, isRef := itFeature.Next().(EReference)
 			if isRef {
 				if ref.IsContainment() {
@@ -268,12 +280,13 @@ func (eClass *EClassExt) initEAllAttributes() {
 
 		attributes := []any{}
 		allAttributes := []any{}
+		visited := map[any]struct{}{}
 		var eIDAttribute EAttribute = nil
 		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
 			superAttributes := itClass.Next().(EClass).GetEAllAttributes()
 			for itAttribute := superAttributes.Iterator(); itAttribute.HasNext(); {
 				attribute := itAttribute.Next().(EAttribute)
-				allAttributes = append(allAttributes, attribute)
+				allAttributes = appendNew(allAttributes, visited, attribute)
 				if attribute.IsID() && eIDAttribute == nil {
 					eIDAttribute = attribute
 				}
@@ -284,7 +297,7 @@ func (eClass *EClassExt) initEAllAttributes() {
 			attribute, isAttribute := itFeature.Next().(EAttribute)
 			if isAttribute {
 				attributes = append(attributes, attribute)
-				allAttributes = append(allAttributes, attribute)
+				allAttributes = appendNew(allAttributes, visited, attribute)
 				if attribute.IsID() && eIDAttribute == nil {
 					eIDAttribute = attribute
 				}
@@ -302,16 +315,17 @@ func (eClass *EClassExt) initEAllReferences() {
 	if eClass.eAllReferences == nil {
 		allReferences := []any{}
 		references := []any{}
+		visited := map[any]struct{}{}
 		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
 			superReferences := itClass.Next().(EClass).GetEAllReferences()
-			allReferences = append(allReferences, superReferences.ToArray()...)
+			allReferences = appendNew(allReferences, visited, superReferences.ToArray()...)
 		}
 
 		for itFeature := eClass.GetEStructuralFeatures().Iterator(); itFeature.HasNext(); {
 			reference, isReference := itFeature.Next().(EReference)
 			if isReference {
 				references = append(references, reference)
-				allReferences = append(allReferences, reference)
+				allReferences = appendNew(allReferences, visited, reference)
 			}
 		}
 
@@ -359,9 +373,10 @@ func (eClass *EClassExt) initEAllOperations() {
 		eClass.operationToOverrideMap = nil
 
 		allOperations := []any{}
+		visited := map[any]struct{}{}
 		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
 			superOperations := itClass.Next().(EClass).GetEAllOperations()
-			allOperations = append(allOperations, superOperations.ToArray()...)
+			allOperations = appendNew(allOperations, visited, superOperations.ToArray()...)
 		}
 
 		operationID := len(allOperations)
@@ -386,9 +401,10 @@ func (eClass *EClassExt) initEAllStructuralFeatures() {
 		eClass.nameToFeatureMap = nil
 
 		allFeatures := []any{}
+		visited := map[any]struct{}{}
 		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
 			superFeatures := itClass.Next().(EClass).GetEAllStructuralFeatures()
-			allFeatures = append(allFeatures, superFeatures.ToArray()...)
+			allFeatures = appendNew(allFeatures, visited, superFeatures.ToArray()...)
 		}
 
 		featureID := len(allFeatures)
@@ -407,11 +423,12 @@ func (eClass *EClassExt) initEAllSuperTypes() {
 	eClass.mutex.Lock()
 	if eClass.eAllSuperTypes == nil {
 		allSuperTypes := []any{}
+		visited := map[any]struct{}{}
 		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
 			superClass := itClass.Next().(EClass)
 			superTypes := superClass.GetEAllSuperTypes()
-			allSuperTypes = append(allSuperTypes, superTypes.ToArray()...)
-			allSuperTypes = append(allSuperTypes, superClass)
+			allSuperTypes = appendNew(allSuperTypes, visited, superTypes.ToArray()...)
+			allSuperTypes = appendNew(allSuperTypes, visited, superClass)
 		}
 		eClass.eAllSuperTypes = NewImmutableEList(allSuperTypes)
 	}
@@ -437,29 +454,14 @@ func (eClass *EClassExt) setSubClasses(subClasses []EClassInternal) {
 func (eClass *EClassExt) setModified(featureID int) {
 	eClass.mutex.Lock()
 	switch featureID {
-	case ECLASS__ESTRUCTURAL_FEATURES:
-		eClass.eAllAttributes = nil
-		eClass.eAllStructuralFeatures = nil
-		eClass.eAllReferences = nil
-		eClass.eAllContainments = nil
-	case ECLASS__EATTRIBUTES:
-		eClass.eAllAttributes = nil
-		eClass.eAllStructuralFeatures = nil
-		eClass.eAllContainments = nil
-	case ECLASS__EREFERENCES:
-		eClass.eAllReferences = nil
-		eClass.eAllStructuralFeatures = nil
-		eClass.eAllContainments = nil
+	case ECLASS__ESTRUCTURAL_FEATURES, ECLASS__EATTRIBUTES, ECLASS__EREFERENCES:
+		eClass.resetFeatures()
 	case ECLASS__EOPERATIONS:
-		eClass.eAllOperations = nil
-		eClass.eAllContainments = nil
+		eClass.resetOperations()
 	case ECLASS__ESUPER_TYPES:
 		eClass.eAllSuperTypes = nil
-		eClass.eAllAttributes = nil
-		eClass.eAllOperations = nil
-		eClass.eAllStructuralFeatures = nil
-		eClass.eAllReferences = nil
-		eClass.eAllContainments = nil
+		eClass.resetFeatures()
+		eClass.resetOperations()
 	}
 	for _, s := range eClass.subClasses {
 		s.setModified(featureID)
@@ -467,6 +469,24 @@ func (eClass *EClassExt) setModified(featureID int) {
 	eClass.mutex.Unlock()
 }
 
+// resetFeatures forgets everything computed from the features
+func (eClass *EClassExt) resetFeatures() {
+	eClass.eAllAttributes = nil
+	eClass.eAllReferences = nil
+	eClass.eAllStructuralFeatures = nil
+	eClass.eAllContainments = nil
+	eClass.eAllCrossReferences = nil
+	eClass.eContainmentFeatures = nil
+	eClass.eCrossReferenceFeatures = nil
+	eClass.nameToFeatureMap = nil
+}
+
+// resetOperations forgets everything computed from the operations
+func (eClass *EClassExt) resetOperations() {
+	eClass.eAllOperations = nil
+	eClass.operationToOverrideMap = nil
+}
+
 func IsMapEntry(eClass EClass) bool {
 	instanceTypeName := eClass.GetInstanceTypeName()
 	return (instanceTypeName == "java.util.Map.Entry" ||
-- 
2.43.0


From 52d69fdd68634c2461c7b8b0e7740ceb5f3c2e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 13/65] fix: derived views of a metamodel follow renamings,
 retyping, opposites and overrides

---
 ecore/eattribute_ext.go         | 12 ++++-----
 ecore/eclass_ext.go             | 47 +++++++++------------------------
 ecore/eclassifier_ext.go        |  8 ++++++
 ecore/epackage_ext.go           | 15 ++++++++---
 ecore/ereference_ext.go         | 35 +++++++++++++-----------
 ecore/estructuralfeature_ext.go | 25 +++++++++++++++++-
 6 files changed, 81 insertions(+), 61 deletions(-)

diff --git a/ecore/eattribute_ext.go b/ecore/eattribute_ext.go
index 98dbaea..036d683 100644
--- a/ecore/eattribute_ext.go
+++ b/ecore/eattribute_ext.go
@@ -22,18 +22,16 @@ func newEAttributeExt() *EAttributeExt {
 }
 
 func (eAttribute *EAttributeExt) GetEAttributeType() EDataType {
-	return eAttribute.GetEType().(EDataType)
+	eDataType, _ := eAttribute.GetEType().(EDataType)
+	return eDataType
 }
 
 func (eAttribute *EAttributeExt) basicGetEAttributeType() EDataType {
-	return eAttribute.basicGetEType().(EDataType)
+	eDataType, _ := eAttribute.basicGetEType().(EDataType)
+	return eDataType
 }
 
 func (eAttribute *EAttributeExt) SetID(newIsID bool) {
 	eAttribute.EAttributeImpl.SetID(newIsID)
-	eClass := eAttribute.GetEContainingClass()
-	if eClass != nil {
-		classExt := eClass.(EClassInternal)
-		classExt.setModified(ECLASS__EATTRIBUTES)
-	}
+	eAttribute.setClassModified(ECLASS__EATTRIBUTES)
 }
diff --git a/ecore/eclass_ext.go b/ecore/eclass_ext.go
index 4ed97a6..6042b54 100644
--- a/ecore/eclass_ext.go
+++ b/ecore/eclass_ext.go
@@ -14,11 +14,10 @@ import "sync"
 // EClassExt is the extension of the model object 'EClass'
 type EClassExt struct {
 	EClassImpl
-	adapter                *eSuperAdapter
-	nameToFeatureMap       map[string]EStructuralFeature
-	operationToOverrideMap map[EOperation]EOperation
-	subClasses             []EClassInternal
-	mutex                  sync.Mutex
+	adapter          *eSuperAdapter
+	nameToFeatureMap map[string]EStructuralFeature
+	subClasses       []EClassInternal
+	mutex            sync.Mutex
 }
 
 type EClassInternal interface {
@@ -194,29 +193,15 @@ func (eClass *EClassExt) GetOperationID(operation EOperation) int {
 }
 
 func (eClass *EClassExt) GetOverride(operation EOperation) EOperation {
-	eClass.initOperationToOverrideMap()
-	eClass.mutex.Lock()
-	defer eClass.mutex.Unlock()
-	return eClass.operationToOverrideMap[operation]
-}
-
-func (eClass *EClassExt) initOperationToOverrideMap() {
-	eClass.initEAllOperations()
-	eClass.mutex.Lock()
-	if eClass.operationToOverrideMap == nil {
-		eClass.operationToOverrideMap = make(map[EOperation]EOperation)
-		size := eClass.eAllOperations.Size()
-		for i := 0; i < size; i++ {
-			for j := size - 1; j > i; j-- {
-				oi := eClass.eAllOperations.Get(i).(EOperation)
-				oj := eClass.eAllOperations.Get(j).(EOperation)
-				if oj.IsOverrideOf(oi) {
-					eClass.operationToOverrideMap[oi] = oj
-				}
+	operations := eClass.GetEAllOperations()
+	if index := operations.IndexOf(operation); index != -1 {
+		for i := index + 1; i < operations.Size(); i++ {
+			if override := operations.Get(i).(EOperation); override.IsOverrideOf(operation) {
+				return override
 			}
 		}
 	}
-	eClass.mutex.Unlock()
+	return nil
 }
 
 // appendNew appends to list the elements which it doesn't contain yet:
@@ -370,8 +355,6 @@ func (eClass *EClassExt) initEAllCrossReferences() {
 func (eClass *EClassExt) initEAllOperations() {
 	eClass.mutex.Lock()
 	if eClass.eAllOperations == nil {
-		eClass.operationToOverrideMap = nil
-
 		allOperations := []any{}
 		visited := map[any]struct{}{}
 		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
@@ -457,11 +440,11 @@ func (eClass *EClassExt) setModified(featureID int) {
 	case ECLASS__ESTRUCTURAL_FEATURES, ECLASS__EATTRIBUTES, ECLASS__EREFERENCES:
 		eClass.resetFeatures()
 	case ECLASS__EOPERATIONS:
-		eClass.resetOperations()
+		eClass.eAllOperations = nil
 	case ECLASS__ESUPER_TYPES:
 		eClass.eAllSuperTypes = nil
 		eClass.resetFeatures()
-		eClass.resetOperations()
+		eClass.eAllOperations = nil
 	}
 	for _, s := range eClass.subClasses {
 		s.setModified(featureID)
@@ -481,12 +464,6 @@ func (eClass *EClassExt) resetFeatures() {
 	eClass.nameToFeatureMap = nil
 }
 
-// resetOperations forgets everything computed from the operations
-func (eClass *EClassExt) resetOperations() {
-	eClass.eAllOperations = nil
-	eClass.operationToOverrideMap = nil
-}
-
 func IsMapEntry(eClass EClass) bool {
 	instanceTypeName := eClass.GetInstanceTypeName()
 	return (instanceTypeName == "java.util.Map.Entry" ||
diff --git a/ecore/eclassifier_ext.go b/ecore/eclassifier_ext.go
index f94ebe3..6f7a151 100644
--- a/ecore/eclassifier_ext.go
+++ b/ecore/eclassifier_ext.go
@@ -40,3 +40,11 @@ func (eClassifier *EClassifierExt) GetInstanceTypeName() string {
 func (eClassifier *EClassifierExt) SetInstanceTypeName(newInstanceTypeName string) {
 	eClassifier.SetInstanceClassName(newInstanceTypeName)
 }
+
+// SetName set the value of name
+func (eClassifier *EClassifierExt) SetName(newName string) {
+	eClassifier.EClassifierImpl.SetName(newName)
+	if ePackage, _ := eClassifier.EInternalContainer().(ePackageInternal); ePackage != nil {
+		ePackage.resetClassifiers()
+	}
+}
diff --git a/ecore/epackage_ext.go b/ecore/epackage_ext.go
index e224186..6a064ea 100644
--- a/ecore/epackage_ext.go
+++ b/ecore/epackage_ext.go
@@ -21,9 +21,7 @@ func (a *ePackageExtAdapter) NotifyChanged(notification ENotification) {
 	if eventType != REMOVING_ADAPTER {
 		featureID := notification.GetFeatureID()
 		if featureID == EPACKAGE__ECLASSIFIERS {
-			a.pack.classifierMutex.Lock()
-			a.pack.classifierCache = nil
-			a.pack.classifierMutex.Unlock()
+			a.pack.resetClassifiers()
 		}
 	}
 }
@@ -36,6 +34,10 @@ type EPackageExt struct {
 	classifierMutex sync.Mutex
 }
 
+type ePackageInternal interface {
+	resetClassifiers()
+}
+
 func newEPackageExt() *EPackageExt {
 	pack := new(EPackageExt)
 	pack.SetInterfaces(pack)
@@ -68,6 +70,13 @@ func (pack *EPackageExt) GetEClassifier(classifier string) EClassifier {
 	return pack.classifierCache[classifier]
 }
 
+// resetClassifiers forgets the classifiers indexed by name
+func (pack *EPackageExt) resetClassifiers() {
+	pack.classifierMutex.Lock()
+	pack.classifierCache = nil
+	pack.classifierMutex.Unlock()
+}
+
 func (pack *EPackageExt) CreateResource() EResource {
 	resource := pack.EPackageImpl.EResource()
 	if resource == nil {
diff --git a/ecore/ereference_ext.go b/ecore/ereference_ext.go
index a989e6a..9cc31f6 100644
--- a/ecore/ereference_ext.go
+++ b/ecore/ereference_ext.go
@@ -12,7 +12,6 @@ package ecore
 // EReferenceExt is the extension of the model object 'EReference'
 type EReferenceExt struct {
 	EReferenceImpl
-	eReferenceType EClass
 }
 
 func newEReferenceExt() *EReferenceExt {
@@ -28,23 +27,29 @@ func (eReference *EReferenceExt) IsContainer() bool {
 }
 
 func (eReference *EReferenceExt) GetEReferenceType() EClass {
-	if eReference.eReferenceType == nil || eReference.eReferenceType.EIsProxy() {
-		eType := eReference.GetEType()
-		eReferenceType, _ := eType.(EClass)
-		if eReferenceType != nil {
-			eReference.eReferenceType = eReferenceType
-		}
-	}
-	return eReference.eReferenceType
+	eReferenceType, _ := eReference.GetEType().(EClass)
+	return eReferenceType
 }
 
 func (eReference *EReferenceExt) basicGetEReferenceType() EClass {
-	if eReference.eReferenceType == nil {
-		eType := eReference.basicGetEType()
-		eReferenceType, _ := eType.(EClass)
-		if eReferenceType != nil {
-			eReference.eReferenceType = eReferenceType
+	eReferenceType, _ := eReference.basicGetEType().(EClass)
+	return eReferenceType
+}
+
+// SetContainment set the value of isContainment
+func (eReference *EReferenceExt) SetContainment(newIsContainment bool) {
+	eReference.EReferenceImpl.SetContainment(newIsContainment)
+	eReference.setClassModified(ECLASS__EREFERENCES)
+	// the opposite is now, or is no longer, a container
+	if opposite := eReference.basicGetEOpposite(); opposite != nil {
+		if eClass, _ := opposite.GetEContainingClass().(EClassInternal); eClass != nil {
+			eClass.setModified(ECLASS__EREFERENCES)
 		}
 	}
-	return eReference.eReferenceType
+}
+
+// SetEOpposite set the value of eOpposite
+func (eReference *EReferenceExt) SetEOpposite(newEOpposite EReference) {
+	eReference.EReferenceImpl.SetEOpposite(newEOpposite)
+	eReference.setClassModified(ECLASS__EREFERENCES)
 }
diff --git a/ecore/estructuralfeature_ext.go b/ecore/estructuralfeature_ext.go
index 02ea3ed..0b14782 100644
--- a/ecore/estructuralfeature_ext.go
+++ b/ecore/estructuralfeature_ext.go
@@ -14,6 +14,7 @@ type EStructuralFeatureExt struct {
 	EStructuralFeatureImpl
 	defaultValue        any
 	defaultValueFactory EFactory
+	defaultValueType    EDataType
 }
 
 func newEStructuralFeatureExt() *EStructuralFeatureExt {
@@ -35,11 +36,14 @@ func (eStructuralFeature *EStructuralFeatureExt) GetDefaultValue() any {
 		}
 	} else if eDataType, _ := eType.(EDataType); eDataType != nil {
 		if ePackage := eType.GetEPackage(); ePackage != nil {
-			if factory := ePackage.GetEFactoryInstance(); factory != eStructuralFeature.defaultValueFactory {
+			if factory := ePackage.GetEFactoryInstance(); factory != eStructuralFeature.defaultValueFactory || eDataType != eStructuralFeature.defaultValueType {
 				if eDataType.IsSerializable() {
 					eStructuralFeature.defaultValue = factory.CreateFromString(eDataType, defaultValueLiteral)
+				} else {
+					eStructuralFeature.defaultValue = nil
 				}
 				eStructuralFeature.defaultValueFactory = factory
+				eStructuralFeature.defaultValueType = eDataType
 			}
 		}
 		return eStructuralFeature.defaultValue
@@ -76,6 +80,25 @@ func (eStructuralFeature *EStructuralFeatureExt) SetFeatureID(newFeatureID int)
 	eStructuralFeature.featureID = newFeatureID
 }
 
+// SetName set the value of name
+func (eStructuralFeature *EStructuralFeatureExt) SetName(newName string) {
+	eStructuralFeature.EStructuralFeatureImpl.SetName(newName)
+	eStructuralFeature.setClassModified(ECLASS__ESTRUCTURAL_FEATURES)
+}
+
+// SetDerived set the value of isDerived
+func (eStructuralFeature *EStructuralFeatureExt) SetDerived(newIsDerived bool) {
+	eStructuralFeature.EStructuralFeatureImpl.SetDerived(newIsDerived)
+	eStructuralFeature.setClassModified(ECLASS__ESTRUCTURAL_FEATURES)
+}
+
+// setClassModified tells the class of the feature that what it computes from its features is obsolete
+func (eStructuralFeature *EStructuralFeatureExt) setClassModified(featureID int) {
+	if eClass, _ := eStructuralFeature.EInternalContainer().(EClassInternal); eClass != nil {
+		eClass.setModified(featureID)
+	}
+}
+
 func IsBidirectional(feature EStructuralFeature) bool {
 	ref, isRef := feature.(EReference)
 	if isRef {
-- 
2.43.0


From e2fd359e4408053c3cf41664599a86854fadebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 14/65] fix: unsetting a container reference which does not
 hold the container leaves the object where it is

---
 ecore/abstracteobject.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index a421dd3..57ddeb1 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -433,6 +433,10 @@ func (o *AbstractEObject) eDynamicPropertiesSet(properties EDynamicProperties, d
 		featureID := o.AsEObject().EClass().GetFeatureID(dynamicFeature)
 		oldContainer := objInternal.EInternalContainer()
 		newContainer, _ := newValue.(EObjectInternal)
+		if oldContainer != nil && newContainer == nil && objInternal.EInternalContainerFeatureID() != featureID {
+			// the object is contained through another feature : this one is already nil
+			return
+		}
 		if newContainer != oldContainer || (newContainer != nil && objInternal.EInternalContainerFeatureID() != featureID) {
 			var notifications ENotificationChain
 			if oldContainer != nil {
@@ -588,8 +592,12 @@ func (o *AbstractEObject) EUnsetFromID(featureID int) {
 
 func (o *AbstractEObject) eDynamicPropertiesUnset(properties EDynamicProperties, dynamicFeature EStructuralFeature, dynamicFeatureID int) {
 	if IsContainer(dynamicFeature) {
-		if o.AsEObjectInternal().EInternalContainer() != nil {
+		if objInternal := o.AsEObjectInternal(); objInternal.EInternalContainer() != nil {
 			featureID := o.AsEObject().EClass().GetFeatureID(dynamicFeature)
+			if objInternal.EInternalContainerFeatureID() != featureID {
+				// the object is contained through another feature : this one is already unset
+				return
+			}
 			notifications := o.EBasicRemoveFromContainer(nil)
 			notifications = o.EBasicSetContainer(nil, featureID, notifications)
 			if notifications != nil {
-- 
2.43.0


From 20dbe90e12f8791a4d7dd8fca5ce25784bfd660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 15/65] fix: removing an object contained through a
 bidirectional containment

---
 ecore/ecoreutils.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ecore/ecoreutils.go b/ecore/ecoreutils.go
index 6f6272d..bfd4b45 100644
--- a/ecore/ecoreutils.go
+++ b/ecore/ecoreutils.go
@@ -173,7 +173,15 @@ func EqualsAll(l1 EList, l2 EList) bool {
 func Remove(eObject EObject) {
 	if eObjectInternal, _ := eObject.(EObjectInternal); eObjectInternal != nil {
 		if eContainer := eObjectInternal.EInternalContainer(); eContainer != nil {
-			if eFeature := eObject.EContainmentFeature(); eFeature != nil {
+			eFeature := eObject.EContainmentFeature()
+			if abstractObject, _ := eObject.(interface{ AsEObjectInternal() EObjectInternal }); abstractObject != nil {
+				// the containment feature of a bidirectional containment is the container reference
+				// of the object : the object is removed from the feature of its container
+				if eReference, _ := eObject.EContainingFeature().(EReference); eReference != nil {
+					eFeature = eReference
+				}
+			}
+			if eFeature != nil {
 				if eFeature.IsMany() {
 					l := eContainer.EGet(eFeature).(EList)
 					l.Remove(eObject)
-- 
2.43.0


From 4a3579669828fbc41d640373fcce4fdcd4f7eaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 16/65] fix: notifications of dynamic features hold the feature
 identifier of the class of the object

---
 ecore/abstracteobject.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 57ddeb1..c503368 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -334,7 +334,7 @@ func (o *AbstractEObject) eDynamicPropertiesGet(properties EDynamicProperties, d
 						}
 					}
 					if o.ENotificationRequired() {
-						o.ENotify(NewNotificationByFeature(o.AsEObject(), RESOLVE, dynamicFeature, oldValue, newValue, NO_INDEX))
+						o.ENotify(o.newDynamicNotification(RESOLVE, dynamicFeature, dynamicFeatureID, oldValue, newValue, NO_INDEX))
 					}
 				}
 			}
@@ -452,7 +452,7 @@ func (o *AbstractEObject) eDynamicPropertiesSet(properties EDynamicProperties, d
 				notifications.Dispatch()
 			}
 		} else if o.ENotificationRequired() {
-			o.ENotify(NewNotificationByFeature(o.AsEObject(), SET, dynamicFeature, newValue, newValue, NO_INDEX))
+			o.ENotify(o.newDynamicNotification(SET, dynamicFeature, dynamicFeatureID, newValue, newValue, NO_INDEX))
 		}
 	} else if newList, _ := newValue.(EList); newList != nil && dynamicFeature.IsMany() {
 		// replace the content of the list or of the map
@@ -498,7 +498,7 @@ func (o *AbstractEObject) eDynamicPropertiesSet(properties EDynamicProperties, d
 
 			// create notification
 			if o.ENotificationRequired() {
-				notification := NewNotificationByFeature(o.AsEObject(), SET, dynamicFeature, oldValue, newValue, NO_INDEX)
+				notification := o.newDynamicNotification(SET, dynamicFeature, dynamicFeatureID, oldValue, newValue, NO_INDEX)
 				if notifications != nil {
 					notifications.Add(notification)
 				} else {
@@ -518,7 +518,7 @@ func (o *AbstractEObject) eDynamicPropertiesSet(properties EDynamicProperties, d
 
 		// notify
 		if o.ENotificationRequired() {
-			o.ENotify(NewNotificationByFeature(o.AsEObject(), SET, dynamicFeature, oldValue, newValue, NO_INDEX))
+			o.ENotify(o.newDynamicNotification(SET, dynamicFeature, dynamicFeatureID, oldValue, newValue, NO_INDEX))
 		}
 	}
 }
@@ -604,7 +604,7 @@ func (o *AbstractEObject) eDynamicPropertiesUnset(properties EDynamicProperties,
 				notifications.Dispatch()
 			}
 		} else if o.ENotificationRequired() {
-			o.ENotify(NewNotificationByFeature(o.AsEObject(), SET, dynamicFeature, nil, nil, NO_INDEX))
+			o.ENotify(o.newDynamicNotification(SET, dynamicFeature, dynamicFeatureID, nil, nil, NO_INDEX))
 		}
 	} else if IsBidirectional(dynamicFeature) || IsContains(dynamicFeature) {
 		// inverse - opposite
@@ -637,7 +637,7 @@ func (o *AbstractEObject) eDynamicPropertiesUnset(properties EDynamicProperties,
 				if dynamicFeature.IsUnsettable() {
 					eventType = UNSET
 				}
-				notification := NewNotificationByFeature(o.AsEObject(), eventType, dynamicFeature, oldValue, nil, NO_INDEX)
+				notification := o.newDynamicNotification(eventType, dynamicFeature, dynamicFeatureID, oldValue, nil, NO_INDEX)
 				if notifications != nil {
 					notifications.Add(notification)
 				} else {
@@ -658,11 +658,19 @@ func (o *AbstractEObject) eDynamicPropertiesUnset(properties EDynamicProperties,
 		}
 		properties.EDynamicUnset(dynamicFeatureID)
 		if o.ENotificationRequired() {
-			o.ENotify(NewNotificationByFeature(o.AsEObject(), UNSET, dynamicFeature, oldValue, nil, NO_INDEX))
+			o.ENotify(o.newDynamicNotification(UNSET, dynamicFeature, dynamicFeatureID, oldValue, nil, NO_INDEX))
 		}
 	}
 }
 
+// newDynamicNotification creates the notification of a change of a dynamic feature. It holds the identifier
+// of the feature in the class of the object : the one in the class which declares it may be the one of another feature
+func (o *AbstractEObject) newDynamicNotification(eventType EventType, dynamicFeature EStructuralFeature, dynamicFeatureID int, oldValue any, newValue any, position int) *notification {
+	n := NewNotificationByFeature(o.AsEObject(), eventType, dynamicFeature, oldValue, newValue, position)
+	n.featureID = o.AsEObjectInternal().EStaticFeatureCount() + dynamicFeatureID
+	return n
+}
+
 // EInvoke ...
 func (o *AbstractEObject) EInvoke(operation EOperation, arguments EList) any {
 	operationID := o.AsEObjectInternal().EOperationID(operation)
@@ -759,7 +767,7 @@ func (o *AbstractEObject) eDynamicPropertiesInverseAdd(properties EDynamicProper
 
 		// create notification
 		if o.ENotificationRequired() {
-			notification := NewNotificationByFeature(o.AsEObject(), SET, dynamicFeature, oldValue, otherEnd, NO_INDEX)
+			notification := o.newDynamicNotification(SET, dynamicFeature, dynamicFeatureID, oldValue, otherEnd, NO_INDEX)
 			if notifications != nil {
 				notifications.Add(notification)
 			} else {
@@ -802,7 +810,7 @@ func (o *AbstractEObject) eDynamicPropertiesInverseRemove(properties EDynamicPro
 
 		// create notification
 		if o.ENotificationRequired() {
-			notification := NewNotificationByFeature(o.AsEObject(), SET, dynamicFeature, oldValue, nil, NO_INDEX)
+			notification := o.newDynamicNotification(SET, dynamicFeature, dynamicFeatureID, oldValue, nil, NO_INDEX)
 			if notifications != nil {
 				notifications.Add(notification)
 			} else {
-- 
2.43.0


From 441cf4b55a23ab7a80fd4e19f41d216648330437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 17/65] fix: notifications of changes at different positions of
 a list are not merged

---
 ecore/abstractnotification.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecore/abstractnotification.go b/ecore/abstractnotification.go
index 87d22e6..ebeebf5 100644
--- a/ecore/abstractnotification.go
+++ b/ecore/abstractnotification.go
@@ -54,7 +54,8 @@ func (notif *AbstractNotification) Merge(eOther ENotification) bool {
 		switch notifEv := eOther.GetEventType(); notifEv {
 		case SET, UNSET:
 			if eNotif.GetNotifier() == eOther.GetNotifier() &&
-				eNotif.GetFeatureID() == eOther.GetFeatureID() {
+				eNotif.GetFeatureID() == eOther.GetFeatureID() &&
+				notif.position == eOther.GetPosition() {
 				notif.newValue = eOther.GetNewValue()
 				if eOther.GetEventType() == SET {
 					notif.eventType = SET
-- 
2.43.0


From 30a03651a7783e667c18a8edcc1a702814273dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 18/65] fix: an object replaced in a resource and still
 contained under a content adapter keeps it

---
 ecore/econtentadapter.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ecore/econtentadapter.go b/ecore/econtentadapter.go
index 00f135e..40b90f5 100644
--- a/ecore/econtentadapter.go
+++ b/ecore/econtentadapter.go
@@ -91,26 +91,27 @@ func (adapter *EContentAdapter) UnSetTarget(notifier ENotifier) {
 
 func (adapter *EContentAdapter) selfAdapt(notification ENotification) {
 	notifier := notification.GetNotifier()
+	_, isResource := notifier.(EResource)
 	switch notifier.(type) {
 	case EObject:
 		feature := notification.GetFeature()
 		if reference, _ := feature.(EReference); reference != nil {
 			if reference.IsContainment() {
-				adapter.handleContainment(notification)
+				adapter.handleContainment(notification, isResource)
 			}
 		}
 	case EResource:
 		if notification.GetFeatureID() == RESOURCE__CONTENTS {
-			adapter.handleContainment(notification)
+			adapter.handleContainment(notification, isResource)
 		}
 	case EResourceSet:
 		if notification.GetFeatureID() == RESOURCE_SET__RESOURCES {
-			adapter.handleContainment(notification)
+			adapter.handleContainment(notification, isResource)
 		}
 	}
 }
 
-func (adapter *EContentAdapter) handleContainment(notification ENotification) {
+func (adapter *EContentAdapter) handleContainment(notification ENotification, isResource bool) {
 	switch notification.GetEventType() {
 	case RESOLVE:
 		// We need to be careful that the proxy may be resolved while we are attaching this adapter.
@@ -131,7 +132,7 @@ func (adapter *EContentAdapter) handleContainment(notification ENotification) {
 	case SET:
 		oldNotifier, _ := notification.GetOldValue().(ENotifier)
 		newNotifier, _ := notification.GetNewValue().(ENotifier)
-		adapter.removeAdapterWithChecks(oldNotifier, false, true)
+		adapter.removeAdapterWithChecks(oldNotifier, isResource, !isResource)
 		adapter.addAdapter(newNotifier)
 	case ADD:
 		newNotifier, _ := notification.GetNewValue().(ENotifier)
-- 
2.43.0


From 7dc866f6121d18cc85d0f04db96380771b412cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 19/65] fix: an object replacing one of its ancestors leaves
 its resource before it enters it again

---
 ecore/abstracteobject.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index c503368..66c587b 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -439,6 +439,15 @@ func (o *AbstractEObject) eDynamicPropertiesSet(properties EDynamicProperties, d
 		}
 		if newContainer != oldContainer || (newContainer != nil && objInternal.EInternalContainerFeatureID() != featureID) {
 			var notifications ENotificationChain
+			if oldContainer != nil && newContainer != nil {
+				// when the object replaces one of its ancestors, this one leaves its resource with the object
+				reverseFeature := dynamicFeature.(EReference).GetEOpposite()
+				if oldContainer.EContainer() != nil && !reverseFeature.IsMany() {
+					if replaced, _ := newContainer.EGetResolve(reverseFeature, false).(EObject); replaced != nil && IsAncestor(replaced, oldContainer) {
+						newContainer.EUnset(reverseFeature)
+					}
+				}
+			}
 			if oldContainer != nil {
 				notifications = o.EBasicRemoveFromContainer(notifications)
 			}
-- 
2.43.0


From 9d36b5d4cbf9019952a9a374a58d1a1bb6f44755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 20/65] fix: resource tracking leaves out objects held by other
 resources, and objects leave an unloaded resource

---
 ecore/eresource_impl.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index edd07eb..5d1af1e 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -354,14 +354,24 @@ func (r *EResourceImpl) IsAttachedDetachedRequired() bool {
 	return r.objectIDManager != nil || (r.listeners != nil && !r.listeners.Empty())
 }
 
+// forEachProperContent calls f with every object contained, directly or not, in object and which is in the same resource :
+// objects directly held by a resource, and what they contain, are left out.
+func forEachProperContent(object EObject, f func(EObject)) {
+	contents := object.EContents().(EObjectList).GetUnResolvedList()
+	for it := contents.Iterator(); it.HasNext(); {
+		if o, _ := it.Next().(EObject); o != nil {
+			if oInternal, _ := o.(EObjectInternal); oInternal == nil || oInternal.EInternalResource() == nil {
+				f(o)
+				forEachProperContent(o, f)
+			}
+		}
+	}
+}
+
 func (r *EResourceImpl) Attached(object EObject) {
 	if resourceInternal := r.AsEResourceInternal(); resourceInternal.IsAttachedDetachedRequired() {
 		resourceInternal.DoAttached(object)
-		for it := r.getAllContentsResolve(object, false); it.HasNext(); {
-			if o, _ := it.Next().(EObject); o != nil {
-				resourceInternal.DoAttached(o)
-			}
-		}
+		forEachProperContent(object, resourceInternal.DoAttached)
 	}
 }
 
@@ -380,11 +390,7 @@ func (r *EResourceImpl) DoAttached(object EObject) {
 func (r *EResourceImpl) Detached(object EObject) {
 	if resourceInternal := r.AsEResourceInternal(); resourceInternal.IsAttachedDetachedRequired() {
 		resourceInternal.DoDetached(object)
-		for it := r.getAllContentsResolve(object, false); it.HasNext(); {
-			if o, _ := it.Next().(EObject); o != nil {
-				resourceInternal.DoDetached(o)
-			}
-		}
+		forEachProperContent(object, resourceInternal.DoDetached)
 	}
 }
 
@@ -482,7 +488,10 @@ func (r *EResourceImpl) Unload() {
 }
 
 func (r *EResourceImpl) DoUnload() {
-	r.contents = nil
+	if r.contents != nil {
+		// objects leave the resource
+		r.contents.Clear()
+	}
 	r.errors = nil
 	r.warnings = nil
 	if r.objectIDManager != nil {
-- 
2.43.0


From c4070e075893118c7a566915601baf919a391723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 21/65] fix: an element taken out of its container no longer
 fails to give its container

---
 ecore/abstracteobject.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 66c587b..417edec 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -122,7 +122,12 @@ func (o *AbstractEObject) EContainer() EObject {
 }
 
 func (o *AbstractEObject) EContainerFeatureID() int {
-	return o.AsEObjectInternal().EInternalContainerFeatureID()
+	objectInternal := o.AsEObjectInternal()
+	if objectInternal.EInternalContainer() == nil {
+		// the feature of the former container is meaningless
+		return -1
+	}
+	return objectInternal.EInternalContainerFeatureID()
 }
 
 // EResource ...
-- 
2.43.0


From 8ddeabba6d5e9bbac267e4095b3d8b7941f2b607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 22/65] fix: unsetting the container reference of an annotation
 or a factory contained through another feature leaves it where it is

---
 ecore/eannotation_impl.go | 4 ++++
 ecore/efactory_impl.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ecore/eannotation_impl.go b/ecore/eannotation_impl.go
index b24b41a..910bf08 100644
--- a/ecore/eannotation_impl.go
+++ b/ecore/eannotation_impl.go
@@ -89,6 +89,10 @@ func (e *EAnnotationImpl) GetEModelElement() EModelElement {
 
 // SetEModelElement set the value of eModelElement
 func (e *EAnnotationImpl) SetEModelElement(newEModelElement EModelElement) {
+	if newEModelElement == nil && e.EInternalContainer() != nil && e.EContainerFeatureID() != EANNOTATION__EMODEL_ELEMENT {
+		// contained through another feature : this one is already nil
+		return
+	}
 	if newEModelElement != e.EInternalContainer() || (newEModelElement != nil && e.EContainerFeatureID() != EANNOTATION__EMODEL_ELEMENT) {
 		var notifications ENotificationChain
 		if e.EInternalContainer() != nil {
diff --git a/ecore/efactory_impl.go b/ecore/efactory_impl.go
index e080106..4ec2fb9 100644
--- a/ecore/efactory_impl.go
+++ b/ecore/efactory_impl.go
@@ -69,6 +69,10 @@ func (e *EFactoryImpl) GetEPackage() EPackage {
 
 // SetEPackage set the value of ePackage
 func (e *EFactoryImpl) SetEPackage(newEPackage EPackage) {
+	if newEPackage == nil && e.EInternalContainer() != nil && e.EContainerFeatureID() != EFACTORY__EPACKAGE {
+		// contained through another feature : this one is already nil
+		return
+	}
 	if newEPackage != e.EInternalContainer() || (newEPackage != nil && e.EContainerFeatureID() != EFACTORY__EPACKAGE) {
 		var notifications ENotificationChain
 		if e.EInternalContainer() != nil {
-- 
2.43.0


From aee4aed86a07e9b21f539809d2ffd4248d0761be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 23/65] fix: notifications of metamodel elements hold the
 element as notifier

---
 ecore/eannotation_impl.go   | 2 +-
 ecore/efactory_impl.go      | 2 +-
 ecore/egenerictype_impl.go  | 4 ++--
 ecore/ereference_impl.go    | 2 +-
 ecore/etypedelement_impl.go | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ecore/eannotation_impl.go b/ecore/eannotation_impl.go
index 910bf08..b38e592 100644
--- a/ecore/eannotation_impl.go
+++ b/ecore/eannotation_impl.go
@@ -106,7 +106,7 @@ func (e *EAnnotationImpl) SetEModelElement(newEModelElement EModelElement) {
 			notifications.Dispatch()
 		}
 	} else if e.ENotificationRequired() {
-		e.ENotify(NewNotificationByFeatureID(e, SET, EANNOTATION__EMODEL_ELEMENT, newEModelElement, newEModelElement, NO_INDEX))
+		e.ENotify(NewNotificationByFeatureID(e.AsEObject(), SET, EANNOTATION__EMODEL_ELEMENT, newEModelElement, newEModelElement, NO_INDEX))
 	}
 }
 
diff --git a/ecore/efactory_impl.go b/ecore/efactory_impl.go
index 4ec2fb9..644cd4d 100644
--- a/ecore/efactory_impl.go
+++ b/ecore/efactory_impl.go
@@ -86,7 +86,7 @@ func (e *EFactoryImpl) SetEPackage(newEPackage EPackage) {
 			notifications.Dispatch()
 		}
 	} else if e.ENotificationRequired() {
-		e.ENotify(NewNotificationByFeatureID(e, SET, EFACTORY__EPACKAGE, newEPackage, newEPackage, NO_INDEX))
+		e.ENotify(NewNotificationByFeatureID(e.AsEObject(), SET, EFACTORY__EPACKAGE, newEPackage, newEPackage, NO_INDEX))
 	}
 }
 
diff --git a/ecore/egenerictype_impl.go b/ecore/egenerictype_impl.go
index 30509fa..c84a450 100644
--- a/ecore/egenerictype_impl.go
+++ b/ecore/egenerictype_impl.go
@@ -78,7 +78,7 @@ func (e *EGenericTypeImpl) GetEClassifier() EClassifier {
 		e.eClassifier = newEClassifier
 		if newEClassifier != oldEClassifier {
 			if e.ENotificationRequired() {
-				e.ENotify(NewNotificationByFeatureID(e, RESOLVE, EGENERIC_TYPE__ECLASSIFIER, oldEClassifier, newEClassifier, NO_INDEX))
+				e.ENotify(NewNotificationByFeatureID(e.AsEObject(), RESOLVE, EGENERIC_TYPE__ECLASSIFIER, oldEClassifier, newEClassifier, NO_INDEX))
 			}
 		}
 	}
@@ -143,7 +143,7 @@ func (e *EGenericTypeImpl) GetERawType() EClassifier {
 		e.eRawType = newERawType
 		if newERawType != oldERawType {
 			if e.ENotificationRequired() {
-				e.ENotify(NewNotificationByFeatureID(e, RESOLVE, EGENERIC_TYPE__ERAW_TYPE, oldERawType, newERawType, NO_INDEX))
+				e.ENotify(NewNotificationByFeatureID(e.AsEObject(), RESOLVE, EGENERIC_TYPE__ERAW_TYPE, oldERawType, newERawType, NO_INDEX))
 			}
 		}
 	}
diff --git a/ecore/ereference_impl.go b/ecore/ereference_impl.go
index fc3f252..a5c0aaa 100644
--- a/ecore/ereference_impl.go
+++ b/ecore/ereference_impl.go
@@ -79,7 +79,7 @@ func (e *EReferenceImpl) GetEOpposite() EReference {
 		e.eOpposite = newEOpposite
 		if newEOpposite != oldEOpposite {
 			if e.ENotificationRequired() {
-				e.ENotify(NewNotificationByFeatureID(e, RESOLVE, EREFERENCE__EOPPOSITE, oldEOpposite, newEOpposite, NO_INDEX))
+				e.ENotify(NewNotificationByFeatureID(e.AsEObject(), RESOLVE, EREFERENCE__EOPPOSITE, oldEOpposite, newEOpposite, NO_INDEX))
 			}
 		}
 	}
diff --git a/ecore/etypedelement_impl.go b/ecore/etypedelement_impl.go
index bd8b0c8..2faaad9 100644
--- a/ecore/etypedelement_impl.go
+++ b/ecore/etypedelement_impl.go
@@ -66,7 +66,7 @@ func (e *ETypedElementImpl) GetEType() EClassifier {
 		e.eType = newEType
 		if newEType != oldEType {
 			if e.ENotificationRequired() {
-				e.ENotify(NewNotificationByFeatureID(e, RESOLVE, ETYPED_ELEMENT__ETYPE, oldEType, newEType, NO_INDEX))
+				e.ENotify(NewNotificationByFeatureID(e.AsEObject(), RESOLVE, ETYPED_ELEMENT__ETYPE, oldEType, newEType, NO_INDEX))
 			}
 		}
 	}
-- 
2.43.0


From 571e2332ab9d07a264eca3aa957567313757c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 24/65] fix: traversals restricted to a class follow cycles of
 containments, instances of sub classes and every containment of an object

---
 ecore/eallcontents.go | 201 +++++++++++++++++++++++-------------------
 1 file changed, 110 insertions(+), 91 deletions(-)

diff --git a/ecore/eallcontents.go b/ecore/eallcontents.go
index f58f81f..0db67da 100644
--- a/ecore/eallcontents.go
+++ b/ecore/eallcontents.go
@@ -1,5 +1,7 @@
 package ecore
 
+import "slices"
+
 type eAllContentIterator = treeIterator
 
 func newEAllContentsIterator(object EObject) *eAllContentIterator {
@@ -25,122 +27,142 @@ func (ts transitions) addTransition(transition *transition) transitions {
 	return append(ts, transition)
 }
 
-func (ts transitions) removeTransition(transition *transition) transitions {
-	for i, t := range ts {
-		if t == transition || *t == *transition {
-			ts[i] = ts[len(ts)-1]
-			return ts[:len(ts)-1]
-		}
-	}
-	return ts
-}
-
 type EClassTransitionsTable struct {
+	endClass       EClass
 	transitionsMap map[EClass]transitions
 	endSet         map[EClass]struct{}
 }
 
-func newEClassTransitionsTable() *EClassTransitionsTable {
+func newEClassTransitionsTable(endClass EClass) *EClassTransitionsTable {
 	return &EClassTransitionsTable{
+		endClass:       endClass,
 		transitionsMap: map[EClass]transitions{},
 		endSet:         map[EClass]struct{}{},
 	}
 }
 
-func (table *EClassTransitionsTable) union(other *EClassTransitionsTable) *EClassTransitionsTable {
-	for _, transitions := range other.transitionsMap {
-		for _, transition := range transitions {
-			table.addTransition(transition)
-		}
-	}
-	for eClass := range other.endSet {
-		table.setIsEnd(eClass)
-	}
-	return table
-}
-
 func (table *EClassTransitionsTable) addTransition(t *transition) {
 	table.transitionsMap[t.source] = table.transitionsMap[t.source].addTransition(t)
 }
 
-func (table *EClassTransitionsTable) removeTransition(t *transition) {
-	if tableTransitions, isTransitions := table.transitionsMap[t.source]; isTransitions {
-		table.transitionsMap[t.source] = tableTransitions.removeTransition(t)
-	}
-}
-
+// getTransitions returns the references of a class to follow
 func (table *EClassTransitionsTable) getTransitions(eClass EClass) []*transition {
 	if tableTransitions, isTransitions := table.transitionsMap[eClass]; isTransitions {
 		return tableTransitions
 	}
-	return nil
-}
-
-func (table *EClassTransitionsTable) contains(source EClass) bool {
-	_, isTransitions := table.transitionsMap[source]
-	return isTransitions
-}
-
-func (table *EClassTransitionsTable) setIsEnd(eClass EClass) {
-	table.endSet[eClass] = struct{}{}
+	// a class which was not met when the table was computed : follow all its references
+	tableTransitions := transitions{}
+	for _, reference := range getContainmentReferences(eClass) {
+		tableTransitions = append(tableTransitions, &transition{source: eClass, target: reference.GetEReferenceType(), reference: reference})
+	}
+	return tableTransitions
 }
 
 func (table *EClassTransitionsTable) isEnd(eClass EClass) bool {
-	_, isEnd := table.endSet[eClass]
-	return isEnd
+	if _, isEnd := table.endSet[eClass]; isEnd {
+		return true
+	}
+	if _, isKnown := table.transitionsMap[eClass]; isKnown {
+		return false
+	}
+	return isEClassOrSubClass(eClass, table.endClass)
 }
 
+// NewEClassTransitionsTable computes the references which lead from instances of startClass
+// to the instances of endClass they contain
 func NewEClassTransitionsTable(startClass EClass, endClass EClass) *EClassTransitionsTable {
-	resultTable := newEClassTransitionsTable()
-	if startClass != endClass {
-		computeTransitionTableForState(startClass, endClass, newEClassTransitionsTable(), resultTable)
+	resultTable := newEClassTransitionsTable(endClass)
+
+	// classes of the objects which may be contained in an instance of startClass
+	classes := []EClass{startClass}
+	visited := map[EClass]struct{}{startClass: {}}
+	for i := 0; i < len(classes); i++ {
+		eClass := classes[i]
+		resultTable.transitionsMap[eClass] = nil
+		if isEClassOrSubClass(eClass, endClass) {
+			resultTable.endSet[eClass] = struct{}{}
+		}
+		for _, reference := range getContainmentReferences(eClass) {
+			for _, targetClass := range getInstanceClasses(reference.GetEReferenceType()) {
+				if _, isVisited := visited[targetClass]; !isVisited {
+					visited[targetClass] = struct{}{}
+					classes = append(classes, targetClass)
+				}
+			}
+		}
 	}
-	return resultTable
-}
 
-func computeTransitionTableForState(eClass EClass, endClass EClass, currentTable *EClassTransitionsTable, resultTable *EClassTransitionsTable) {
-	for itFeature := eClass.GetEContainmentFeatures().Iterator(); itFeature.HasNext(); {
-		reference, _ := itFeature.Next().(EReference)
-		if reference != nil {
-			computeTransitionTableForReference(eClass, reference, endClass, currentTable, resultTable)
+	// classes whose instances are of endClass or may contain instances of endClass
+	leads := map[EClass]struct{}{}
+	for eClass := range resultTable.endSet {
+		leads[eClass] = struct{}{}
+	}
+	isLeading := func(reference EReference) bool {
+		referenceType := reference.GetEReferenceType()
+		if referenceType == GetPackage().GetEObject() {
+			return true
+		}
+		for _, targetClass := range getInstanceClasses(referenceType) {
+			if _, isLeading := leads[targetClass]; isLeading {
+				return true
+			}
+		}
+		return false
+	}
+	for isModified := true; isModified; {
+		isModified = false
+		for _, eClass := range classes {
+			if _, isKnown := leads[eClass]; !isKnown && slices.ContainsFunc(getContainmentReferences(eClass), isLeading) {
+				leads[eClass] = struct{}{}
+				isModified = true
+			}
 		}
 	}
+
+	// transitions
+	for _, eClass := range classes {
+		for _, reference := range getContainmentReferences(eClass) {
+			if isLeading(reference) {
+				resultTable.addTransition(&transition{source: eClass, target: reference.GetEReferenceType(), reference: reference})
+			}
+		}
+	}
+	return resultTable
 }
 
-func computeTransitionTableForReference(sourceClass EClass, reference EReference, endClass EClass, currentTable *EClassTransitionsTable, resultTable *EClassTransitionsTable) {
-	targetClass := reference.GetEReferenceType()
-	transition := &transition{source: sourceClass, target: targetClass, reference: reference}
+func isEClassOrSubClass(eClass EClass, eSuperClass EClass) bool {
+	return eSuperClass == GetPackage().GetEObject() || eSuperClass.IsSuperTypeOf(eClass)
+}
 
-	if targetClass == endClass {
-		// end
-		// add current to result table
-		resultTable.setIsEnd(targetClass)
-		resultTable.union(currentTable)
-		resultTable.addTransition(transition)
+func getContainmentReferences(eClass EClass) []EReference {
+	references := []EReference{}
+	for itFeature := eClass.GetEContainmentFeatures().Iterator(); itFeature.HasNext(); {
+		if reference, _ := itFeature.Next().(EReference); reference != nil && reference.GetEReferenceType() != nil {
+			references = append(references, reference)
+		}
 	}
+	return references
+}
 
-	if currentTable.contains(targetClass) {
-		// cycle
-		// check if target is in result and add the current
-		// transition table to keep track of this cycle
-		if resultTable.contains(targetClass) {
-			resultTable.union(currentTable)
-			resultTable.addTransition(transition)
+// getInstanceClasses returns the classes of the values of a reference : its type and the sub classes of its type
+func getInstanceClasses(eClass EClass) []EClass {
+	classes := []EClass{eClass}
+	for i := 0; i < len(classes); i++ {
+		if eClassInternal, _ := classes[i].(EClassInternal); eClassInternal != nil {
+			for _, subClassInternal := range eClassInternal.getSubClasses() {
+				if subClass, _ := subClassInternal.(EClass); subClass != nil && !slices.Contains(classes, subClass) {
+					classes = append(classes, subClass)
+				}
+			}
 		}
-		return
 	}
-
-	currentTable.addTransition(transition)
-	computeTransitionTableForState(targetClass, endClass, currentTable, resultTable)
-	currentTable.removeTransition(transition)
-
+	return classes
 }
 
 type data struct {
 	eObject     EObject
 	eClass      EClass
 	iterator    EIterator
-	transition  *transition   // current transition
 	transitions []*transition // remaining transitions
 }
 
@@ -203,27 +225,24 @@ func (it *eAllContentsWithClassIterator) findNext() any {
 	for len(it.data) != 0 {
 		d := it.data[len(it.data)-1]
 
-		if d.iterator == nil || !d.iterator.HasNext() {
+		if d.transitions == nil {
 			// retrieve state transitions
-			if d.transitions == nil {
-				if transitions := it.table.getTransitions(d.eClass); transitions != nil {
-					d.transitions = transitions
-				} else {
-					d.transitions = notransitions
-				}
-			}
-			// compute current and remaining transition
-			if len(d.transitions) != 0 {
-				last := len(d.transitions) - 1
-				d.transition = d.transitions[last]
-				d.transitions = d.transitions[:last]
+			if transitions := it.table.getTransitions(d.eClass); transitions != nil {
+				d.transitions = transitions
 			} else {
-				d.transition = nil
+				d.transitions = notransitions
 			}
+		}
+
+		for (d.iterator == nil || !d.iterator.HasNext()) && len(d.transitions) != 0 {
+			// compute current and remaining transition
+			last := len(d.transitions) - 1
+			reference := d.transitions[last].reference
+			d.transitions = d.transitions[:last]
 
 			// compute iterator
-			if d.transition != nil && d.eObject.EIsSet(d.transition.reference) {
-				value := d.eObject.EGet(d.transition.reference)
+			if d.eObject.EIsSet(reference) {
+				value := d.eObject.EGet(reference)
 				switch v := value.(type) {
 				case EList:
 					d.iterator = v.Iterator()
@@ -235,7 +254,7 @@ func (it *eAllContentsWithClassIterator) findNext() any {
 
 		if d.iterator != nil && d.iterator.HasNext() {
 			eObject := d.iterator.Next().(EObject)
-			eClass := d.transition.target
+			eClass := eObject.EClass()
 			// push data to the stack before returning to look for children next iteration
 			it.data = append(it.data, &data{eObject: eObject, eClass: eClass})
 
-- 
2.43.0


From 09a1da3cdc433b139eada670384b9dc8de2b5d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 25/65] fix: an entry put in another map leaves the map which
 contained it

---
 ecore/basiceobjectmap.go  | 34 ++++++++++++++++++++++++++++++++++
 ecore/eannotation_impl.go |  3 +++
 2 files changed, 37 insertions(+)

diff --git a/ecore/basiceobjectmap.go b/ecore/basiceobjectmap.go
index 1528290..77b89e1 100644
--- a/ecore/basiceobjectmap.go
+++ b/ecore/basiceobjectmap.go
@@ -72,3 +72,37 @@ func (m *BasicEObjectMap) newEntry(key any, value any) EMapEntry {
 	eEntry.SetValue(value)
 	return eEntry
 }
+
+func (m *BasicEObjectMap) asNotifyingList() ENotifyingList {
+	return m.EList.(ENotifyingList)
+}
+
+// GetNotifier ...
+func (m *BasicEObjectMap) GetNotifier() ENotifier {
+	return m.asNotifyingList().GetNotifier()
+}
+
+// GetFeature ...
+func (m *BasicEObjectMap) GetFeature() EStructuralFeature {
+	return m.asNotifyingList().GetFeature()
+}
+
+// GetFeatureID ...
+func (m *BasicEObjectMap) GetFeatureID() int {
+	return m.asNotifyingList().GetFeatureID()
+}
+
+// AddWithNotification ...
+func (m *BasicEObjectMap) AddWithNotification(object any, notifications ENotificationChain) ENotificationChain {
+	return m.asNotifyingList().AddWithNotification(object, notifications)
+}
+
+// RemoveWithNotification ...
+func (m *BasicEObjectMap) RemoveWithNotification(object any, notifications ENotificationChain) ENotificationChain {
+	return m.asNotifyingList().RemoveWithNotification(object, notifications)
+}
+
+// SetWithNotification ...
+func (m *BasicEObjectMap) SetWithNotification(index int, object any, notifications ENotificationChain) ENotificationChain {
+	return m.asNotifyingList().SetWithNotification(index, object, notifications)
+}
diff --git a/ecore/eannotation_impl.go b/ecore/eannotation_impl.go
index b38e592..693557e 100644
--- a/ecore/eannotation_impl.go
+++ b/ecore/eannotation_impl.go
@@ -248,6 +248,9 @@ func (e *EAnnotationImpl) EBasicInverseRemove(otherEnd EObject, featureID int, n
 		list := e.GetContents().(ENotifyingList)
 		return list.RemoveWithNotification(otherEnd, notifications)
 	case EANNOTATION__DETAILS:
+		if list, _ := e.GetDetails().(ENotifyingList); list != nil {
+			return list.RemoveWithNotification(otherEnd, notifications)
+		}
 		return notifications
 	case EANNOTATION__EMODEL_ELEMENT:
 		return e.asBasics().basicSetEModelElement(nil, notifications)
-- 
2.43.0


From c734dc0beb11b5a11f482ed2c5842a5927f4404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 26/65] fix: a map in which entries have the same key finds the
 remaining one when an entry leaves

---
 ecore/basicemap.go       | 57 +++++++++++++++++++++++++++++++++++-----
 ecore/basiceobjectmap.go |  7 +++--
 ecore/estoremap.go       |  7 +++--
 3 files changed, 61 insertions(+), 10 deletions(-)

diff --git a/ecore/basicemap.go b/ecore/basicemap.go
index d7b2697..4c6526a 100644
--- a/ecore/basicemap.go
+++ b/ecore/basicemap.go
@@ -44,8 +44,11 @@ func (ml *basicEMapList) DidAdd(index int, elem any) {
 func (ml *basicEMapList) DidSet(index int, newElem any, oldElem any) {
 	newEntry := newElem.(EMapEntry)
 	oldEntry := oldElem.(EMapEntry)
-	ml.m.doRemove(oldEntry)
-	ml.m.doAdd(newEntry)
+	ml.m.doSet(newEntry, oldEntry)
+}
+
+func (ml *basicEMapList) DidMove(newIndex int, movedObject any, oldIndex int) {
+	ml.m.doMove()
 }
 
 func (ml *basicEMapList) DidRemove(index int, oldElem any) {
@@ -156,30 +159,72 @@ func (m *BasicEMap) ToMap() map[any]any {
 	return m.mapData
 }
 
+// initDataMap computes the map data : the first of the entries with the same key gives its value
 func (m *BasicEMap) initDataMap() {
 	if m.mapData == nil {
 		m.mapData = make(map[any]any, m.Size())
 		for itEntry := m.Iterator(); itEntry.HasNext(); {
 			entry := itEntry.Next().(EMapEntry)
-			m.mapData[entry.GetKey()] = entry.GetValue()
+			key := entry.GetKey()
+			if _, isKey := m.mapData[key]; !isKey {
+				m.mapData[key] = entry.GetValue()
+			}
 		}
 	}
 }
 
 func (m *BasicEMap) doAdd(e EMapEntry) {
 	m.mapMutex.Lock()
-	if m.mapData != nil {
-		m.mapData[e.GetKey()] = e.GetValue()
+	m.addMapData(e)
+	m.mapMutex.Unlock()
+}
+
+func (m *BasicEMap) doSet(newEntry EMapEntry, oldEntry EMapEntry) {
+	m.mapMutex.Lock()
+	m.removeMapData(oldEntry, m.Size)
+	m.addMapData(newEntry)
+	m.mapMutex.Unlock()
+}
+
+func (m *BasicEMap) doMove() {
+	m.mapMutex.Lock()
+	if m.mapData != nil && len(m.mapData) != m.Size() {
+		// entries with the same key : another one may be the first
+		m.mapData = nil
 	}
 	m.mapMutex.Unlock()
 }
 
 func (m *BasicEMap) doRemove(e EMapEntry) {
 	m.mapMutex.Lock()
-	delete(m.mapData, e.GetKey())
+	m.removeMapData(e, func() int { return m.Size() + 1 })
 	m.mapMutex.Unlock()
 }
 
+func (m *BasicEMap) addMapData(e EMapEntry) {
+	if m.mapData != nil {
+		key := e.GetKey()
+		if _, isKey := m.mapData[key]; isKey {
+			// another entry has the same key : data is computed again when needed
+			m.mapData = nil
+		} else {
+			m.mapData[key] = e.GetValue()
+		}
+	}
+}
+
+func (m *BasicEMap) removeMapData(e EMapEntry, entryCount func() int) {
+	key := e.GetKey()
+	if m.mapData != nil {
+		if len(m.mapData) == entryCount() {
+			delete(m.mapData, key)
+		} else {
+			// another entry may have the same key : data is computed again when needed
+			m.mapData = nil
+		}
+	}
+}
+
 func (m *BasicEMap) doClear() {
 	m.mapMutex.Lock()
 	m.mapData = nil
diff --git a/ecore/basiceobjectmap.go b/ecore/basiceobjectmap.go
index 77b89e1..9895e02 100644
--- a/ecore/basiceobjectmap.go
+++ b/ecore/basiceobjectmap.go
@@ -44,8 +44,11 @@ func (ml *basicEObjectMapList) DidAdd(index int, elem any) {
 func (ml *basicEObjectMapList) DidSet(index int, newElem any, oldElem any) {
 	newEntry := newElem.(EMapEntry)
 	oldEntry := oldElem.(EMapEntry)
-	ml.m.doRemove(oldEntry)
-	ml.m.doAdd(newEntry)
+	ml.m.doSet(newEntry, oldEntry)
+}
+
+func (ml *basicEObjectMapList) DidMove(newIndex int, movedObject any, oldIndex int) {
+	ml.m.doMove()
 }
 
 func (ml *basicEObjectMapList) DidRemove(index int, oldElem any) {
diff --git a/ecore/estoremap.go b/ecore/estoremap.go
index f210933..e98c504 100644
--- a/ecore/estoremap.go
+++ b/ecore/estoremap.go
@@ -22,8 +22,11 @@ func (ml *eStoreEMapList) DidAdd(index int, elem any) {
 func (ml *eStoreEMapList) DidSet(index int, newElem any, oldElem any) {
 	newEntry := newElem.(EMapEntry)
 	oldEntry := oldElem.(EMapEntry)
-	ml.m.doRemove(oldEntry)
-	ml.m.doAdd(newEntry)
+	ml.m.doSet(newEntry, oldEntry)
+}
+
+func (ml *eStoreEMapList) DidMove(newIndex int, movedObject any, oldIndex int) {
+	ml.m.doMove()
 }
 
 func (ml *eStoreEMapList) DidRemove(index int, oldElem any) {
-- 
2.43.0


From b6875c44edc5a29b05071ecfb05ddb5d46d2dbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 27/65] fix: URIs keep their text when they are built,
 resolved, made relative and trimmed

---
 ecore/uri.go | 463 ++++++++++++++++++++++++++-------------------------
 1 file changed, 236 insertions(+), 227 deletions(-)

diff --git a/ecore/uri.go b/ecore/uri.go
index 0e431a0..5eabdd5 100644
--- a/ecore/uri.go
+++ b/ecore/uri.go
@@ -18,93 +18,84 @@ import (
 )
 
 type URIBuilder struct {
-	scheme   string
 	username string
 	password string
 	host     string
 	port     string
-	path     string
-	query    string
-	fragment string
+	text     uriText
 }
 
 func NewURIBuilder(uri *URI) *URIBuilder {
 	if uri != nil {
 		return &URIBuilder{
-			scheme:   uri.scheme,
 			username: uri.username,
 			password: uri.password,
 			host:     uri.host,
 			port:     uri.port,
-			path:     uri.path,
-			query:    uri.query,
-			fragment: uri.fragment,
+			text:     uri.text(),
 		}
 	}
 	return &URIBuilder{}
 }
 
 func (builder *URIBuilder) URI() *URI {
-	return NewURIFromComponents(
-		builder.scheme,
-		builder.username,
-		builder.password,
-		builder.host,
-		builder.port,
-		builder.path,
-		builder.query,
-		builder.fragment,
-	)
+	return builder.text.uri()
 }
 
 func (b *URIBuilder) SetScheme(scheme string) *URIBuilder {
-	b.scheme = scheme
+	b.text.scheme = scheme
 	return b
 }
 
 func (b *URIBuilder) SetUsername(username string) *URIBuilder {
 	b.username = username
-	return b
+	return b.setAuthority()
 }
 
 func (b *URIBuilder) SetPassword(password string) *URIBuilder {
 	b.password = password
-	return b
+	return b.setAuthority()
 }
 
 func (b *URIBuilder) SetHost(host string) *URIBuilder {
 	b.host = host
-	return b
+	return b.setAuthority()
 }
 
 func (b *URIBuilder) SetPort(port string) *URIBuilder {
 	b.port = port
+	return b.setAuthority()
+}
+
+func (b *URIBuilder) setAuthority() *URIBuilder {
+	b.text.authority = escapeAuthority(b.username, b.password, b.host, b.port)
+	b.text.hasAuthority = len(b.text.authority) > 0
 	return b
 }
 
 func (b *URIBuilder) SetPath(path string) *URIBuilder {
-	b.path = path
+	b.text.path = escapeURIText(path, "%?#")
 	return b
 }
 
 func (b *URIBuilder) SetQuery(query string) *URIBuilder {
-	b.query = query
+	b.text.query = escapeURIText(query, "#")
+	b.text.hasQuery = len(query) > 0
 	return b
 }
 
 func (b *URIBuilder) ClearQuery() *URIBuilder {
-	b.query = ""
-	return b
+	return b.SetQuery("")
 }
 
 func (b *URIBuilder) SetFragment(fragment string) *URIBuilder {
-	b.fragment = fragment
+	b.text.fragment = escapeURIText(fragment, "%")
+	b.text.hasFragment = len(fragment) > 0
 	return b
 }
 
 func (b *URIBuilder) ClearFragment() *URIBuilder {
-	b.fragment = ""
-	return b
+	return b.SetFragment("")
 }
 
 type URI struct {
@@ -119,87 +110,127 @@ type URI struct {
 	rawURI   string
 }
 
-const (
-	schemeComponent = iota
-	usernameComponent
-	passwordComponent
-	hostComponent
-	portComponent
-	pathComponent
-	queryComponent
-	fragmentComponent
-)
-
-var uriCache *weak.Map[string, URI]
-
-func getURICache() *weak.Map[string, URI] {
-	if uriCache == nil {
-		uriCache = weak.NewMap[string, URI]()
+var uriCache = weak.NewMap[string, URI]()
+
+// uriText is the text of a URI, split in its components as they are written
+type uriText struct {
+	scheme       string
+	authority    string
+	path         string
+	query        string
+	fragment     string
+	hasAuthority bool
+	hasQuery     bool
+	hasFragment  bool
+}
+
+func splitURIText(text string) (t uriText) {
+	text, t.fragment, t.hasFragment = strings.Cut(text, "#")
+	text, t.query, t.hasQuery = strings.Cut(text, "?")
+	if i := strings.IndexAny(text, ":/"); i > 0 && text[i] == ':' {
+		t.scheme = text[:i]
+		text = text[i+1:]
+	}
+	if strings.HasPrefix(text, "//") && (len(t.scheme) > 0 || !strings.HasPrefix(text, "///")) {
+		t.hasAuthority = true
+		text = text[2:]
+		i := strings.IndexByte(text, '/')
+		if i == -1 {
+			i = len(text)
+		}
+		t.authority = text[:i]
+		text = text[i:]
 	}
-	return uriCache
+	t.path = text
+	return
 }
 
-func NewURIFromComponents(scheme string, username string, password string, host string, port string, path string, query string, fragment string) *URI {
+func (t uriText) String() string {
 	var s strings.Builder
-	indexes := [8][2]int{}
-	writeComponent := func(Component int, str string) {
-		indexes[Component][0] = s.Len()
-		s.WriteString(str)
-		indexes[Component][1] = s.Len()
-	}
-	if len(scheme) > 0 {
-		writeComponent(schemeComponent, scheme)
-		s.WriteRune(':')
+	if len(t.scheme) > 0 {
+		s.WriteString(t.scheme)
+		s.WriteByte(':')
 	}
-	if len(username) > 0 || len(password) > 0 || len(host) > 0 || len(port) > 0 {
+	path := t.path
+	if t.hasAuthority {
 		s.WriteString("//")
-		if len(username) > 0 || len(password) > 0 {
-			writeComponent(usernameComponent, username)
-			if len(password) > 0 {
-				s.WriteRune(':')
-				writeComponent(passwordComponent, password)
+		s.WriteString(t.authority)
+	} else if strings.HasPrefix(path, "//") {
+		// not an authority
+		path = "/%2F" + path[2:]
+	} else if len(t.scheme) == 0 {
+		// not a scheme
+		if i := strings.IndexAny(path, ":/"); i >= 0 && path[i] == ':' {
+			segment, rest, isRest := strings.Cut(path, "/")
+			path = strings.ReplaceAll(segment, ":", "%3A")
+			if isRest {
+				path += "/" + rest
 			}
-			s.WriteRune('@')
-		}
-		writeComponent(hostComponent, host)
-		if len(port) > 0 {
-			s.WriteRune(':')
-			writeComponent(portComponent, port)
 		}
 	}
-	writeComponent(pathComponent, path)
-	if len(query) > 0 {
-		s.WriteRune('?')
-		writeComponent(queryComponent, query)
+	s.WriteString(path)
+	if t.hasQuery {
+		s.WriteByte('?')
+		s.WriteString(t.query)
 	}
-	if len(fragment) > 0 {
-		s.WriteRune('#')
-		writeComponent(fragmentComponent, fragment)
+	if t.hasFragment {
+		s.WriteByte('#')
+		s.WriteString(t.fragment)
 	}
-	rawURI := s.String()
+	return s.String()
+}
 
-	// retrieve uri from cache
-	cache := getURICache()
-	uri := cache.Get(rawURI)
-	if uri == nil {
-		// uri doesn't exists - build & register it
-		getComponent := func(c int) string {
-			return rawURI[indexes[c][0]:indexes[c][1]]
+func (t uriText) uri() *URI {
+	text := t.String()
+	if uri, err := ParseURI(text); err == nil {
+		return uri
+	}
+	// components that don't make a valid text
+	unescape := func(s string) string {
+		if unescaped, err := url.PathUnescape(s); err == nil {
+			return unescaped
 		}
-		uri = &URI{
-			scheme:   getComponent(schemeComponent),
-			username: getComponent(usernameComponent),
-			password: getComponent(passwordComponent),
-			host:     getComponent(hostComponent),
-			port:     getComponent(portComponent),
-			path:     getComponent(pathComponent),
-			query:    getComponent(queryComponent),
-			fragment: getComponent(fragmentComponent),
-			rawURI:   rawURI,
+		return s
+	}
+	return &URI{scheme: t.scheme, host: t.authority, path: unescape(t.path), query: t.query, fragment: unescape(t.fragment), rawURI: text}
+}
+
+// escapeURIText escapes control characters and the given ones
+func escapeURIText(text string, chars string) string {
+	const hexa = "0123456789ABCDEF"
+	var s strings.Builder
+	for i := 0; i < len(text); i++ {
+		if c := text[i]; c < ' ' || c == 0x7F || strings.IndexByte(chars, c) >= 0 {
+			s.WriteByte('%')
+			s.WriteByte(hexa[c>>4])
+			s.WriteByte(hexa[c&15])
+		} else {
+			s.WriteByte(c)
 		}
-		cache.Set(rawURI, uri)
 	}
-	return uri
+	return s.String()
+}
+
+func escapeAuthority(username string, password string, host string, port string) string {
+	var s strings.Builder
+	if len(username) > 0 || len(password) > 0 {
+		if len(password) > 0 {
+			s.WriteString(url.UserPassword(username, password).String())
+		} else {
+			s.WriteString(url.User(username).String())
+		}
+		s.WriteByte('@')
+	}
+	s.WriteString(host)
+	if len(port) > 0 {
+		s.WriteByte(':')
+		s.WriteString(port)
+	}
+	return s.String()
+}
+
+func NewURIFromComponents(scheme string, username string, password string, host string, port string, path string, query string, fragment string) *URI {
+	return NewURIBuilder(nil).SetScheme(scheme).SetUsername(username).SetPassword(password).SetHost(host).SetPort(port).SetPath(path).SetQuery(query).SetFragment(fragment).URI()
 }
 
 func NewURI(rawURI string) *URI {
@@ -208,8 +239,7 @@ func NewURI(rawURI string) *URI {
 }
 
 func ParseURI(rawURI string) (*URI, error) {
-	cache := getURICache()
-	uri := cache.Get(rawURI)
+	uri := uriCache.Get(rawURI)
 	if uri == nil {
 		if url, err := url.Parse(rawURI); err != nil {
 			return nil, err
@@ -219,21 +249,36 @@ func ParseURI(rawURI string) (*URI, error) {
 				uri.username = url.User.Username()
 				uri.password, _ = url.User.Password()
 			}
-			if i := strings.IndexByte(url.Host, ':'); i >= 0 {
+			if i := strings.LastIndexByte(url.Host, ':'); i > strings.LastIndexByte(url.Host, ']') {
 				uri.host = url.Host[0:i]
 				uri.port = url.Host[i+1:]
 			} else {
 				uri.host = url.Host
 			}
 			if len(url.Opaque) > 0 {
-				uri.path = url.Opaque
+				uri.path = unescapePath(url.Opaque)
 			}
-			cache.Set(rawURI, uri)
+			uri = uriCache.Set(rawURI, uri)
 		}
 	}
 	return uri, nil
 }
 
+func unescapePath(path string) string {
+	if unescaped, err := url.PathUnescape(path); err == nil {
+		return unescaped
+	}
+	return path
+}
+
+func (uri *URI) text() uriText {
+	if len(uri.rawURI) == 0 && !uri.IsEmpty() {
+		// uri which is not made from a text
+		return splitURIText(NewURIFromComponents(uri.scheme, uri.username, uri.password, uri.host, uri.port, uri.path, uri.query, uri.fragment).rawURI)
+	}
+	return splitURIText(uri.rawURI)
+}
+
 func (uri *URI) Scheme() string {
 	return uri.scheme
 }
@@ -284,18 +329,7 @@ func (uri *URI) Authority() string {
 	if len(uri.host) == 0 {
 		return ""
 	}
-	hostIndex := strings.Index(uri.rawURI, uri.host)
-	var first int
-	if len(uri.username) > 0 {
-		first = strings.Index(uri.rawURI, uri.username)
-	} else {
-		first = hostIndex
-	}
-	last := hostIndex + len(uri.host)
-	if len(uri.port) > 0 {
-		last += len(uri.port) + 1
-	}
-	return uri.rawURI[first:last]
+	return uri.text().authority
 }
 
 func (uri *URI) String() string {
@@ -303,107 +337,89 @@ func (uri *URI) String() string {
 }
 
 func (uri *URI) Normalize() *URI {
-	if uri.IsOpaque() {
+	t := uri.text()
+	np := normalize(t.path)
+	if np == t.path {
 		return uri
 	}
-
-	np := normalize(uri.path)
-	if np == uri.path {
-		return uri
-	}
-
-	return NewURIFromComponents(
-		uri.scheme,
-		uri.username,
-		uri.password,
-		uri.host,
-		uri.port,
-		np,
-		uri.query,
-		uri.fragment,
-	)
+	t.path = np
+	return t.uri()
 }
 
 func (uri *URI) Resolve(ref *URI) *URI {
-	// check if opaque first
-	if ref.IsOpaque() || uri.IsOpaque() {
-		return ref
-	}
-
-	// Reference to current document (lone fragment)
-	refAuthority := ref.Authority()
-	if len(ref.scheme) == 0 && len(refAuthority) == 0 && len(ref.path) == 0 && len(ref.fragment) != 0 && len(ref.query) == 0 {
-		if len(uri.fragment) == 0 && ref.fragment == uri.fragment {
-			return uri
-		}
-		return NewURIFromComponents(uri.scheme, uri.username, uri.password, uri.host, uri.port, uri.path, uri.query, ref.fragment)
-	}
+	base, result := uri.text(), ref.text()
 
 	// ref is absolute
-	if len(ref.scheme) != 0 {
+	if len(result.scheme) != 0 {
 		return ref
 	}
-
-	// no authority
-	if len(refAuthority) == 0 {
-		path := ref.path
-		if len(ref.path) == 0 || ref.path[0] != '/' {
-			path = resolvePath(uri.path, ref.path, uri.IsAbsolute())
+	result.scheme = base.scheme
+	if !result.hasAuthority {
+		result.authority, result.hasAuthority = base.authority, base.hasAuthority
+		if len(result.path) == 0 {
+			// reference to the current document
+			result.path = base.path
+			if !result.hasQuery {
+				result.query, result.hasQuery = base.query, base.hasQuery
+			}
+		} else if result.path[0] != '/' {
+			if len(base.path) == 0 && base.hasAuthority {
+				base.path = "/"
+			}
+			result.path = resolvePath(base.path, result.path)
 		}
-		return NewURIFromComponents(uri.scheme, uri.username, uri.password, uri.host, uri.port, path, ref.query, ref.fragment)
 	}
-	return NewURIFromComponents(uri.scheme, ref.username, ref.password, ref.host, ref.port, ref.path, ref.query, ref.fragment)
+	return result.uri()
 }
 
 func (uri *URI) Relativize(ref *URI) *URI {
-	// check if opaque
-	if ref.IsOpaque() || uri.IsOpaque() {
+	base, result := uri.text(), ref.text()
+	if uri.scheme != ref.scheme || base.authority != result.authority || base.hasAuthority != result.hasAuthority {
 		return ref
 	}
+	result.scheme, result.authority, result.hasAuthority = "", "", false
 
-	if uri.scheme != ref.scheme || uri.Authority() != ref.Authority() {
-		return ref
-	}
-
-	bp := normalize(uri.path)
-	cp := normalize(ref.path)
-	if bp != cp {
-		if !strings.HasSuffix(bp, "/") {
-			i := strings.LastIndexByte(bp, '/')
-			bp = bp[0 : i+1]
+	bp := normalize(base.path)
+	cp := normalize(result.path)
+	if bp == cp && (result.hasQuery || !base.hasQuery) {
+		result.path = ""
+	} else {
+		bp = bp[0 : strings.LastIndexByte(bp, '/')+1]
+		parents := ""
+		if len(uri.scheme) == 0 {
+			// go up to the first common directory
+			for !strings.HasPrefix(cp, bp) {
+				bp = bp[0 : strings.LastIndexByte(bp[0:len(bp)-1], '/')+1]
+				parents += "../"
+			}
 		}
-
 		if !strings.HasPrefix(cp, bp) {
 			return ref
 		}
+		result.path = parents + cp[len(bp):]
+		if segment, _, _ := strings.Cut(result.path, "/"); len(segment) == 0 || strings.IndexByte(segment, ':') >= 0 {
+			// the first segment is not empty and not a scheme
+			result.path = "./" + result.path
+		}
 	}
-	return NewURIFromComponents("", "", "", "", "", cp[len(bp):], ref.query, ref.fragment)
+	relative := result.uri()
+	if normalized := ref.Normalize(); !uri.Resolve(relative).Equals(normalized) {
+		// there is no relative reference
+		return ref
+	}
+	return relative
 }
 
 func (uri *URI) TrimFragment() *URI {
-	return NewURIFromComponents(
-		uri.scheme,
-		uri.username,
-		uri.password,
-		uri.host,
-		uri.port,
-		uri.path,
-		uri.query,
-		"",
-	)
+	t := uri.text()
+	t.fragment, t.hasFragment = "", false
+	return t.uri()
 }
 
 func (uri *URI) TrimQuery() *URI {
-	return NewURIFromComponents(
-		uri.scheme,
-		uri.username,
-		uri.password,
-		uri.host,
-		uri.port,
-		uri.path,
-		"",
-		uri.fragment,
-	)
+	t := uri.text()
+	t.query, t.hasQuery = "", false
+	return t.uri()
 }
 
 func (uri *URI) ReplacePrefix(oldPrefix *URI, newPrefix *URI) *URI {
@@ -414,11 +430,15 @@ func (uri *URI) ReplacePrefix(oldPrefix *URI, newPrefix *URI) *URI {
 		uri.port != oldPrefix.port {
 		return nil
 	}
-	if oldLen := len(oldPrefix.path); len(uri.path) >= oldLen && uri.path[0:oldLen] == oldPrefix.path {
-		return NewURIFromComponents(newPrefix.scheme, uri.username, uri.password, uri.host, uri.port, newPrefix.path+uri.path[oldLen:], uri.query, uri.fragment)
+	t, oldText := uri.text(), oldPrefix.text()
+	if path, isPrefix := strings.CutPrefix(t.path, oldText.path); isPrefix {
+		newText := newPrefix.text()
+		t.scheme = newText.scheme
+		t.authority, t.hasAuthority = newText.authority, newText.hasAuthority
+		t.path = newText.path + path
+		return t.uri()
 	}
 	return nil
-
 }
 
 func (uri *URI) Equals(other *URI) bool {
@@ -426,27 +446,27 @@ func (uri *URI) Equals(other *URI) bool {
 }
 
 func normalize(path string) string {
-	runes := []rune(path)
+	chars := []byte(path)
 	// Does this path need normalization?
-	ns := needsNormalization(runes) // Number of segments
+	ns := needsNormalization(chars) // Number of segments
 	if ns < 0 {
 		// Nope -- just return it
 		return path
 	}
 
 	segs := make([]int, ns)
-	split(runes, segs)
+	split(chars, segs)
 
 	// Remove dots
-	removeDots(runes, segs)
+	removeDots(chars, segs)
 
 	// Prevent scheme-name confusion
-	maybeAddLeadingDot(runes, segs)
+	maybeAddLeadingDot(chars, segs)
 
 	// Join the remaining segments and return the result
-	newSize := join(runes, segs)
-	runes = runes[0:newSize]
-	return string(runes)
+	newSize := join(chars, segs)
+	chars = chars[0:newSize]
+	return string(chars)
 }
 
 // The following algorithm for path normalization avoids the creation of a
@@ -468,7 +488,7 @@ func normalize(path string) string {
 //
 // This method takes a string argument rather than a char array so that
 // this test can be performed without invoking path.toCharArray().
-func needsNormalization(path []rune) int {
+func needsNormalization(path []byte) int {
 	normal := true
 	ns := 0              // Number of segments
 	end := len(path) - 1 // Index of last char in path
@@ -531,7 +551,7 @@ func needsNormalization(path []rune) int {
 //
 //	All slashes in path replaced by '\0'
 //	segs[i] == Index of first char in segment i (0 <= i < segs.length)
-func split(path []rune, segs []int) {
+func split(path []byte, segs []int) {
 	end := len(path) - 1 // Index of last char in path
 	p := 0               // Index of next char in path
 	i := 0               // Index of current segment
@@ -541,7 +561,7 @@ func split(path []rune, segs []int) {
 		if path[p] != '/' {
 			break
 		}
-		path[p] = rune(0)
+		path[p] = 0
 		p++
 	}
 
@@ -558,14 +578,14 @@ func split(path []rune, segs []int) {
 				continue
 			}
 
-			path[p-1] = rune(0)
+			path[p-1] = 0
 
 			// Skip redundant slashes
 			for p <= end {
 				if path[p] != '/' {
 					break
 				}
-				path[p] = rune(0)
+				path[p] = 0
 				p++
 			}
 			break
@@ -575,7 +595,7 @@ func split(path []rune, segs []int) {
 
 // Remove "." segments from the given path, and remove segment pairs
 // consisting of a non-".." segment followed by a ".." segment.
-func removeDots(path []rune, segs []int) {
+func removeDots(path []byte, segs []int) {
 	ns := len(segs)
 	end := len(path) - 1
 	for i := 0; i < ns; i++ {
@@ -588,10 +608,10 @@ func removeDots(path []rune, segs []int) {
 				if p == end {
 					dots = 1
 					break
-				} else if path[p+1] == rune(0) {
+				} else if path[p+1] == 0 {
 					dots = 1
 					break
-				} else if (path[p+1] == '.') && ((p+1 == end) || (path[p+2] == rune(0))) {
+				} else if (path[p+1] == '.') && ((p+1 == end) || (path[p+2] == 0)) {
 					dots = 2
 					break
 				}
@@ -619,7 +639,7 @@ func removeDots(path []rune, segs []int) {
 
 			if j >= 0 {
 				q := segs[j]
-				if !((path[q] == '.') && (path[q+1] == '.') && (path[q+2] == rune(0))) {
+				if !((path[q] == '.') && (path[q+1] == '.') && (path[q+2] == 0)) {
 					segs[i] = -1
 					segs[j] = -1
 				}
@@ -630,8 +650,8 @@ func removeDots(path []rune, segs []int) {
 
 // DEVIATION: If the normalized path is relative, and if the first
 // segment could be parsed as a scheme name, then prepend a "." segment
-func maybeAddLeadingDot(path []rune, segs []int) {
-	if path[0] == rune(0) {
+func maybeAddLeadingDot(path []byte, segs []int) {
+	if path[0] == 0 {
 		// The path is absolute
 		return
 	}
@@ -651,11 +671,11 @@ func maybeAddLeadingDot(path []rune, segs []int) {
 		return
 	}
 	p := segs[f]
-	for p < len(path) && path[p] != ':' && path[p] != rune(0) {
+	for p < len(path) && path[p] != ':' && path[p] != 0 {
 		p++
 	}
 
-	if p >= len(path) || path[p] == rune(0) {
+	if p >= len(path) || path[p] == 0 {
 		// No colon in first segment, so no "." needed
 		return
 	}
@@ -663,7 +683,7 @@ func maybeAddLeadingDot(path []rune, segs []int) {
 	// At this point we know that the first segment is unused,
 	// hence we can insert a "." segment at that position
 	path[0] = '.'
-	path[1] = rune(0)
+	path[1] = 0
 	segs[0] = 0
 }
 
@@ -680,11 +700,11 @@ func maybeAddLeadingDot(path []rune, segs []int) {
 // Postconditions:
 //
 //	path[0] .. path[return value] == Resulting path
-func join(path []rune, segs []int) int {
+func join(path []byte, segs []int) int {
 	ns := len(segs)      // Number of segments
 	end := len(path) - 1 // Index of last char in path
 	p := 0               // Index of next path char to write
-	if path[p] == rune(0) {
+	if path[p] == 0 {
 		// Restore initial slash for absolute paths
 		path[p] = '/'
 		p++
@@ -698,7 +718,7 @@ func join(path []rune, segs []int) int {
 
 		if p == q {
 			// We're already at this segment, so just skip to its end
-			for p <= end && path[p] != rune(0) {
+			for p <= end && path[p] != 0 {
 				p++
 			}
 
@@ -709,7 +729,7 @@ func join(path []rune, segs []int) int {
 			}
 		} else if p < q {
 			// Copy q down to p
-			for q <= end && path[q] != rune(0) {
+			for q <= end && path[q] != 0 {
 				path[p] = path[q]
 				p++
 				q++
@@ -724,20 +744,9 @@ func join(path []rune, segs []int) int {
 	return p
 }
 
-func resolvePath(base string, child string, _ bool) string {
+func resolvePath(base string, child string) string {
 	i := strings.LastIndexByte(base, '/')
-	cn := len(child)
-	var path string
-	if cn == 0 {
-		if i >= 0 {
-			path = base[0 : i+1]
-		}
-	} else {
-		if i >= 0 {
-			path = path + base[0:i+1]
-		}
-		path = path + child
-	}
+	path := base[0:i+1] + child
 	return normalize(path)
 }
 
-- 
2.43.0


From 3e872bbb357a51dce0db904d12e8607e2325563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:50 +0000
Subject: [PATCH 28/65] fix: identifier managers never give an identifier to
 two objects

---
 ecore/eobjectidmanager_impl.go | 35 +++++++++++++++++-----------------
 ecore/uniqueidmanager.go       |  9 ++++++---
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/ecore/eobjectidmanager_impl.go b/ecore/eobjectidmanager_impl.go
index b25f7c9..75553a6 100644
--- a/ecore/eobjectidmanager_impl.go
+++ b/ecore/eobjectidmanager_impl.go
@@ -33,8 +33,23 @@ func (m *EObjectIDManagerImpl) Clear() {
 func (m *EObjectIDManagerImpl) Register(eObject EObject) {
 	id := GetEObjectID(eObject)
 	if len(id) > 0 {
-		m.idToObject[id] = eObject
-		m.objectToID[eObject] = id
+		m.setObjectID(eObject, id)
+	}
+}
+
+// setObjectID gives the identifier to the object : it replaces its previous identifier
+// and is taken from the object which had it
+func (m *EObjectIDManagerImpl) setObjectID(eObject EObject, newID string) {
+	if oldID, isOldID := m.objectToID[eObject]; isOldID {
+		delete(m.objectToID, eObject)
+		delete(m.idToObject, oldID)
+	}
+	if len(newID) > 0 {
+		if other, isOther := m.idToObject[newID]; isOther {
+			delete(m.objectToID, other)
+		}
+		m.objectToID[eObject] = newID
+		m.idToObject[newID] = eObject
 	}
 }
 
@@ -44,21 +59,7 @@ func (m *EObjectIDManagerImpl) SetID(eObject EObject, id any) error {
 	}
 	if newID, isString := id.(string); isString {
 		SetEObjectID(eObject, newID)
-
-		oldID := m.objectToID[eObject]
-		if len(newID) > 0 {
-			m.objectToID[eObject] = newID
-		} else {
-			delete(m.objectToID, eObject)
-		}
-
-		if len(oldID) > 0 {
-			delete(m.idToObject, oldID)
-		}
-
-		if len(newID) > 0 {
-			m.idToObject[newID] = eObject
-		}
+		m.setObjectID(eObject, newID)
 		return nil
 	}
 	return fmt.Errorf("id :'%v' not supported by EObjectIDManager", id)
diff --git a/ecore/uniqueidmanager.go b/ecore/uniqueidmanager.go
index a2abdd0..ffad6a4 100644
--- a/ecore/uniqueidmanager.go
+++ b/ecore/uniqueidmanager.go
@@ -45,9 +45,14 @@ func (m *UniqueIDManager[ID]) setObjectID(eObject EObject, newID ID) {
 	if oldID, isOldID := m.objectToID[eObject]; isOldID {
 		delete(m.idToObject, oldID)
 	}
+	delete(m.detachedToID, m.getPointer(eObject))
 
 	if m.isValidID(newID) {
 		m.setID(newID)
+		if other, isOther := m.idToObject[newID]; isOther {
+			// the identifier is taken from the object which had it
+			delete(m.objectToID, other)
+		}
 		m.objectToID[eObject] = newID
 		m.idToObject[newID] = eObject
 	} else {
@@ -64,9 +69,7 @@ func (m *UniqueIDManager[ID]) Register(eObject EObject) {
 	if _, isID := m.objectToID[eObject]; !isID {
 		ptr := m.getPointer(eObject)
 		newID, isOldID := m.detachedToID[ptr]
-		if isOldID {
-			delete(m.detachedToID, ptr)
-		} else {
+		if _, isUsed := m.idToObject[newID]; !isOldID || isUsed {
 			newID = m.newID()
 		}
 		m.setObjectID(eObject, newID)
-- 
2.43.0


From e29ab54481ce2a7b6450e5a1acc57e3c85656257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:50 +0000
Subject: [PATCH 29/65] fix: fragments identify the objects of a resource
 whatever their names and identifiers, and fragments which denote nothing give
 nothing

---
 ecore/abstracteobject.go   | 32 ++++++++++-------------
 ecore/ecoreutils.go        | 14 +++++++---
 ecore/emodelelement_ext.go | 30 ++++++++++++++++-----
 ecore/eresource_impl.go    | 53 +++++++++++++++++++++++++++++++-------
 4 files changed, 90 insertions(+), 39 deletions(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 417edec..4cb1ed0 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -13,8 +13,6 @@ import (
 	"slices"
 	"strconv"
 	"strings"
-	"unicode"
-	"unicode/utf8"
 )
 
 // AbstractEObject is a basic implementation of an EObject
@@ -961,29 +959,25 @@ func (o *AbstractEObject) eStructuralFeature(featureName string) EStructuralFeat
 
 func (o *AbstractEObject) EObjectForFragmentSegment(uriSegment string) EObject {
 
-	lastIndex := len(uriSegment) - 1
-	if lastIndex == -1 || uriSegment[0] != '@' {
-		panic("Expecting @ at index 0 of '" + uriSegment + "'")
+	if len(uriSegment) == 0 || uriSegment[0] != '@' {
+		return nil
 	}
 
-	index := -1
-	r, _ := utf8.DecodeLastRuneInString(uriSegment)
-	if unicode.IsDigit(r) {
-		if index = strings.LastIndex(uriSegment, "."); index != -1 {
-			pos, _ := strconv.Atoi(uriSegment[index+1:])
-			eFeatureName := uriSegment[1:index]
-			eFeature := o.eStructuralFeature(eFeatureName)
+	eClass := o.AsEObject().EClass()
+	if eFeature := eClass.GetEStructuralFeatureFromName(uriSegment[1:]); eFeature != nil && !eFeature.IsMany() {
+		eObject, _ := o.AsEObject().EGetResolve(eFeature, false).(EObject)
+		return eObject
+	}
+	if index := strings.LastIndex(uriSegment, "."); index > 0 {
+		pos, err := strconv.Atoi(uriSegment[index+1:])
+		if eFeature := eClass.GetEStructuralFeatureFromName(uriSegment[1:index]); eFeature != nil && err == nil {
 			list, _ := o.AsEObject().EGetResolve(eFeature, false).(EList)
-			if list != nil && pos < list.Size() {
-				return list.Get(pos).(EObject)
+			if list != nil && pos >= 0 && pos < list.Size() {
+				eObject, _ := list.Get(pos).(EObject)
+				return eObject
 			}
 		}
 	}
-	if index == -1 {
-		eFeature := o.eStructuralFeature(uriSegment[1:])
-		eObject, _ := o.AsEObject().EGetResolve(eFeature, false).(EObject)
-		return eObject
-	}
 	return nil
 }
 
diff --git a/ecore/ecoreutils.go b/ecore/ecoreutils.go
index bfd4b45..119e7c4 100644
--- a/ecore/ecoreutils.go
+++ b/ecore/ecoreutils.go
@@ -94,10 +94,16 @@ func getRelativeURIFragmentPath(ancestor EObject, descendant EObject, _ bool) st
 }
 
 func GetEObject(rootEObject EObject, relativeFragmentPath string) EObject {
-	segments := strings.Split(relativeFragmentPath, "/")
-	eObject := rootEObject.(EObjectInternal)
-	for i := 0; i < len(segments) && eObject != nil; i++ {
-		eObject = eObject.EObjectForFragmentSegment(segments[i]).(EObjectInternal)
+	if len(relativeFragmentPath) == 0 {
+		return rootEObject
+	}
+	eObject := rootEObject
+	for _, segment := range strings.Split(relativeFragmentPath, "/") {
+		eObjectInternal, _ := eObject.(EObjectInternal)
+		if eObjectInternal == nil {
+			return nil
+		}
+		eObject = eObjectInternal.EObjectForFragmentSegment(segment)
 	}
 	return eObject
 }
diff --git a/ecore/emodelelement_ext.go b/ecore/emodelelement_ext.go
index 1d03f17..b3d9261 100644
--- a/ecore/emodelelement_ext.go
+++ b/ecore/emodelelement_ext.go
@@ -51,22 +51,27 @@ func (eModelElement *EModelElementExt) EObjectForFragmentSegment(uriFragmentSegm
 				index := strings.LastIndex(uriFragmentSegment, "%")
 				hasCount := false
 				if index != 0 {
-					hasCount = uriFragmentSegment[index+1] == '.'
+					hasCount = index < len(uriFragmentSegment)-1 && uriFragmentSegment[index+1] == '.'
 					if index == len(uriFragmentSegment)-1 || hasCount {
 
 						// DecodeResource all encoded characters.
 						source := ""
 						if encodedSource := uriFragmentSegment[1:index]; encodedSource != "%" {
-							source, _ = url.PathUnescape(encodedSource)
+							unescaped, err := url.PathUnescape(encodedSource)
+							if err != nil {
+								return nil
+							}
+							source = unescaped
 						}
 
 						// Check for a count, i.e., a '.' followed by a number.
 						count := 0
 						if hasCount {
 							i, err := strconv.Atoi(uriFragmentSegment[index+2:])
-							if err == nil {
-								count = i
+							if err != nil {
+								return nil
 							}
+							count = i
 						}
 
 						// Look for the annotation with the matching source.
@@ -106,7 +111,11 @@ func (eModelElement *EModelElementExt) EObjectForFragmentSegment(uriFragmentSegm
 			if name == "%" {
 				name = ""
 			} else {
-				name = url.PathEscape(name)
+				unescaped, err := url.PathUnescape(name)
+				if err != nil {
+					return nil
+				}
+				name = unescaped
 			}
 
 			for it := eModelElement.AsEObject().EContents().Iterator(); it.HasNext(); {
@@ -148,9 +157,16 @@ func (eModelElement *EModelElementExt) EURIFragmentSegment(feature EStructuralFe
 		if len(name) == 0 {
 			name = "%"
 		} else {
-			name = url.PathEscape(name)
+			// '@' at the beginning is the mark of a feature
+			name = strings.ReplaceAll(url.PathEscape(name), "@", "%40")
 		}
-		if count > 0 {
+		isCountRequired := count > 0
+		if index := strings.LastIndex(name, "."); index != -1 && !isCountRequired {
+			// the end of the name is not a count
+			_, err := strconv.Atoi(name[index+1:])
+			isCountRequired = err == nil
+		}
+		if isCountRequired {
 			return name + "." + fmt.Sprintf("%d", count)
 		}
 		return name
diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index 5d1af1e..e59b2a1 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -243,7 +243,7 @@ func (r *EResourceImpl) GetEObject(uriFragment string) EObject {
 			path = path[1:]
 			return r.getObjectByPath(path)
 		} else if uriFragment[size-1] == '?' {
-			if index := strings.LastIndex(uriFragment[:size-2], "?"); index != -1 {
+			if index := strings.LastIndex(uriFragment[:size-1], "?"); index != -1 {
 				id = uriFragment[:index]
 			}
 		}
@@ -309,14 +309,45 @@ func (r *EResourceImpl) getIDForObject(eObject EObject) string {
 }
 
 func (r *EResourceImpl) getObjectByID(id string) EObject {
+	if len(id) == 0 {
+		return nil
+	}
 	if r.objectIDManager != nil {
-		return r.objectIDManager.GetEObject(id)
+		if eObject := r.objectIDManager.GetEObject(id); eObject != nil {
+			// the identifier of the object may have changed since it was registered
+			if objectID := GetEObjectID(eObject); len(objectID) == 0 || objectID == id {
+				return eObject
+			}
+		}
+		if r.isLoading {
+			return nil
+		}
+	}
+	if r.contents != nil {
+		for it := r.contents.Iterator(); it.HasNext(); {
+			if eObject, _ := it.Next().(EObject); eObject != nil {
+				if eObject := getProperContentByID(eObject, id); eObject != nil {
+					return eObject
+				}
+			}
+		}
+	}
+	return nil
+}
+
+// getProperContentByID returns the object with the given identifier among object and what it contains in the same resource
+func getProperContentByID(object EObject, id string) EObject {
+	if GetEObjectID(object) == id {
+		return object
 	}
-	for it := r.getAllContentsResolve(r.GetInterfaces(), false); it.HasNext(); {
-		eObject := it.Next().(EObject)
-		objectID := GetEObjectID(eObject)
-		if id == objectID {
-			return eObject
+	contents := object.EContents().(EObjectList).GetUnResolvedList()
+	for it := contents.Iterator(); it.HasNext(); {
+		if o, _ := it.Next().(EObject); o != nil {
+			if oInternal, _ := o.(EObjectInternal); oInternal == nil || oInternal.EInternalResource() == nil {
+				if o := getProperContentByID(o, id); o != nil {
+					return o
+				}
+			}
 		}
 	}
 	return nil
@@ -341,11 +372,15 @@ func (r *EResourceImpl) getObjectForRootSegment(rootSegment string) EObject {
 		if rootSegment[0] == '?' {
 			return r.getObjectByID(rootSegment[1:])
 		} else {
-			position, _ = strconv.Atoi(rootSegment)
+			var err error
+			if position, err = strconv.Atoi(rootSegment); err != nil {
+				return nil
+			}
 		}
 	}
 	if position >= 0 && position < r.GetContents().Size() {
-		return r.GetContents().Get(position).(EObject)
+		eObject, _ := r.GetContents().Get(position).(EObject)
+		return eObject
 	}
 	return nil
 }
-- 
2.43.0


From 56b09df94863affd98aa02e330b6feb3013bda8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:58 +0000
Subject: [PATCH 30/65] fix: dates keep their instant and byte arrays of
 generated packages convert to text

---
 ecore/ecorefactory_impl.go | 4 ++--
 ecore/efactory_ext.go      | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecore/ecorefactory_impl.go b/ecore/ecorefactory_impl.go
index 4edba4b..27e4590 100644
--- a/ecore/ecorefactory_impl.go
+++ b/ecore/ecorefactory_impl.go
@@ -534,7 +534,7 @@ func (ecoreFactoryImpl *EcoreFactoryImpl) convertECharacterObjectToString(eDataT
 }
 
 const (
-	dateFormat string = "2006-01-02T15:04:05.999Z"
+	dateFormat string = "2006-01-02T15:04:05.999999999Z"
 )
 
 func (ecoreFactoryImpl *EcoreFactoryImpl) createEDateFromString(eDataType EDataType, literalValue string) any {
@@ -544,7 +544,7 @@ func (ecoreFactoryImpl *EcoreFactoryImpl) createEDateFromString(eDataType EDataT
 
 func (ecoreFactoryImpl *EcoreFactoryImpl) convertEDateToString(eDataType EDataType, instanceValue any) string {
 	t, _ := instanceValue.(*time.Time)
-	return t.Format(dateFormat)
+	return t.UTC().Format(dateFormat)
 }
 
 func (ecoreFactoryImpl *EcoreFactoryImpl) createEDoubleFromString(eDataType EDataType, literalValue string) any {
diff --git a/ecore/efactory_ext.go b/ecore/efactory_ext.go
index 6560e81..c472c83 100644
--- a/ecore/efactory_ext.go
+++ b/ecore/efactory_ext.go
@@ -138,6 +138,9 @@ func (eFactory *EFactoryExt) ConvertToString(eDataType EDataType, instanceValue
 		return strconv.FormatBool(v)
 	case "string", "java.lang.String":
 		return instanceValue.(string)
+	case "byte[]", "[]byte":
+		v, _ := instanceValue.([]byte)
+		return string(v)
 	}
 
 	panic("ConvertToString not implemented")
-- 
2.43.0


From 43be018b6ca7c65f51a58977dd95411ac3495d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:17 +0000
Subject: [PATCH 31/65] fix: lists and maps compare byte arrays by content
 instead of panicking

---
 ecore/abstractelist.go       | 37 +++++++++++++++++++++++++++++++++---
 ecore/basicemap.go           |  2 +-
 ecore/basicenotifyinglist.go |  4 ++--
 ecore/estorelist.go          |  2 +-
 ecore/immutableEList.go      |  2 +-
 ecore/immutableemap.go       |  2 +-
 6 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/ecore/abstractelist.go b/ecore/abstractelist.go
index 79e8558..527e18e 100644
--- a/ecore/abstractelist.go
+++ b/ecore/abstractelist.go
@@ -1,7 +1,9 @@
 package ecore
 
 import (
+	"bytes"
 	"iter"
+	"slices"
 	"strconv"
 
 	"github.com/ugurcsen/gods-generic/sets/linkedhashset"
@@ -52,13 +54,20 @@ func (list *AbstractEList) getNonDuplicates(collection Collection) Collection {
 	// initialize hashset with collection
 	hashSet := linkedhashset.New[any]()
 	for it := collection.Iterator(); it.HasNext(); {
-		hashSet.Add(it.Next())
+		elem := it.Next()
+		if _, isBytes := elem.([]byte); isBytes {
+			return list.getNonDuplicatesBytes(collection)
+		}
+		hashSet.Add(elem)
 	}
 	// remove all elements in list
 	collection = list.asEList()
 	if hashSet.Size() >= collection.Size() {
 		for it := collection.Iterator(); it.HasNext(); {
-			hashSet.Remove(it.Next())
+			elem := it.Next()
+			if _, isBytes := elem.([]byte); !isBytes {
+				hashSet.Remove(elem)
+			}
 		}
 	} else {
 		for _, v := range hashSet.Values() {
@@ -74,6 +83,28 @@ func (list *AbstractEList) getNonDuplicates(collection Collection) Collection {
 	return NewImmutableEList(array)
 }
 
+// getNonDuplicatesBytes is getNonDuplicates for a collection of byte arrays, which can't be hashed
+func (list *AbstractEList) getNonDuplicatesBytes(collection Collection) Collection {
+	array := []any{}
+	for it := collection.Iterator(); it.HasNext(); {
+		elem := it.Next()
+		isElem := func(value any) bool { return isSameElement(value, elem) }
+		if !slices.ContainsFunc(array, isElem) && !list.asEList().Contains(elem) {
+			array = append(array, elem)
+		}
+	}
+	return NewImmutableEList(array)
+}
+
+// isSameElement tells if two values are the same element of a list : byte arrays are compared by content
+func isSameElement(value, elem any) bool {
+	if b, isBytes := elem.([]byte); isBytes {
+		valueBytes, isBytes := value.([]byte)
+		return isBytes && bytes.Equal(valueBytes, b)
+	}
+	return value == elem
+}
+
 func (list *AbstractEList) Add(elem any) bool {
 	l := list.asAbstractEList()
 	if list.isUnique && l.Contains(elem) {
@@ -230,7 +261,7 @@ func (list *AbstractEList) Contains(elem any) bool {
 func (list *AbstractEList) IndexOf(elem any) int {
 	i := 0
 	for it := list.asEList().Iterator(); it.HasNext(); i++ {
-		if value := it.Next(); value == elem {
+		if value := it.Next(); isSameElement(value, elem) {
 			return i
 		}
 	}
diff --git a/ecore/basicemap.go b/ecore/basicemap.go
index 4c6526a..84c5a72 100644
--- a/ecore/basicemap.go
+++ b/ecore/basicemap.go
@@ -137,7 +137,7 @@ func (m *BasicEMap) RemoveKey(key any) any {
 func (m *BasicEMap) ContainsValue(value any) bool {
 	for it := m.Iterator(); it.HasNext(); {
 		e := it.Next().(EMapEntry)
-		if e.GetValue() == value {
+		if isSameElement(e.GetValue(), value) {
 			return true
 		}
 	}
diff --git a/ecore/basicenotifyinglist.go b/ecore/basicenotifyinglist.go
index b6ca2bb..48d01e2 100644
--- a/ecore/basicenotifyinglist.go
+++ b/ecore/basicenotifyinglist.go
@@ -215,7 +215,7 @@ func (list *BasicENotifyingList) doInsertAll(index int, l Collection) bool {
 func (list *BasicENotifyingList) doSet(index int, newObject any) any {
 	notifyingList := list.asAbstractENotifyingList()
 	oldObject := notifyingList.performSet(index, newObject)
-	if newObject != oldObject {
+	if !isSameElement(newObject, oldObject) {
 		var notifications ENotificationChain
 		notifications = notifyingList.inverseRemove(oldObject, notifications)
 		notifications = notifyingList.inverseAdd(newObject, notifications)
@@ -294,7 +294,7 @@ func (list *BasicENotifyingList) RemoveAll(collection Collection) bool {
 	return list.doRemoveAll(
 		collection,
 		func(index int, other any) bool {
-			return list.asAbstractEList().doGet(index) == other
+			return isSameElement(list.asAbstractEList().doGet(index), other)
 		})
 }
 
diff --git a/ecore/estorelist.go b/ecore/estorelist.go
index a72784b..22268c7 100644
--- a/ecore/estorelist.go
+++ b/ecore/estorelist.go
@@ -487,7 +487,7 @@ func (list *EStoreList) IndexOf(element any) int {
 	defer list.mutex.Unlock()
 	if list.data != nil {
 		for i, value := range list.data {
-			if value == element || (list.resolve(i, value) == element) {
+			if isSameElement(value, element) || (list.object && list.resolve(i, value) == element) {
 				return i
 			}
 		}
diff --git a/ecore/immutableEList.go b/ecore/immutableEList.go
index fb9705c..123f52f 100644
--- a/ecore/immutableEList.go
+++ b/ecore/immutableEList.go
@@ -148,7 +148,7 @@ func (l *immutableEList) Contains(elem any) bool {
 // IndexOf return the index on an element in an array, else return -1
 func (l *immutableEList) IndexOf(elem any) int {
 	for i, value := range l.data {
-		if value == elem {
+		if isSameElement(value, elem) {
 			return i
 		}
 	}
diff --git a/ecore/immutableemap.go b/ecore/immutableemap.go
index c4f58e2..054c625 100644
--- a/ecore/immutableemap.go
+++ b/ecore/immutableemap.go
@@ -33,7 +33,7 @@ func (m *immutableEMap) RemoveKey(key any) any {
 
 func (m *immutableEMap) ContainsValue(value any) bool {
 	for _, v := range m.data {
-		if v == value {
+		if isSameElement(v, value) {
 			return true
 		}
 	}
-- 
2.43.0


From 0b8b6e46c018a6107882402914f30cf69eb1ee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:17 +0000
Subject: [PATCH 32/65] fix: loaded bidirectional lists which were partially
 populated have the saved order

---
 ecore/binarydecoder.go | 48 +++++++++++-------------------------------
 1 file changed, 12 insertions(+), 36 deletions(-)

diff --git a/ecore/binarydecoder.go b/ecore/binarydecoder.go
index 91b9b96..a0cdf0a 100644
--- a/ecore/binarydecoder.go
+++ b/ecore/binarydecoder.go
@@ -293,44 +293,20 @@ func (d *BinaryDecoder) decodeObjects(list EList) error {
 		objects[i] = object
 	}
 
-	// If the list is empty, we need to add all the objects,
-	// otherwise, the reference is bidirectional and the list is at least partially populated.
+	// If the reference is bidirectional, the list may be at least partially populated :
+	// the objects are added then put in the order of the decoded ones.
 	existingSize := list.Size()
-	if existingSize == 0 {
-		list.AddAll(NewImmutableEList(objects))
-	} else {
-		indices := make([]int, existingSize)
-		duplicateCount := 0
-		existingObjects := make([]any, existingSize)
-		copy(existingObjects, list.ToArray())
-	LOOP:
-		for i := 0; i < size; i++ {
-			o := objects[i]
-			count := duplicateCount
-			for j := 0; j < existingSize; j++ {
-				existing := existingObjects[j]
-				if existing == o {
-					if duplicateCount != count {
-						list.Move(count, duplicateCount)
-					}
-					indices[duplicateCount] = i
-					duplicateCount++
-					existingObjects[j] = nil
-					continue LOOP
-				} else if existing != nil {
-					count++
-				}
-			}
-			objects[i-duplicateCount] = o
+	list.AddAll(NewImmutableEList(objects))
+	if existingSize > 0 {
+		unresolved := list
+		if objectList, _ := list.(EObjectList); objectList != nil {
+			unresolved = objectList.GetUnResolvedList()
 		}
-
-		size -= existingSize
-		list.AddAll(NewImmutableEList(objects))
-		for i := 0; i < existingSize; i++ {
-			newPosition := indices[i]
-			oldPosition := size + i
-			if newPosition != oldPosition {
-				list.Move(oldPosition, newPosition)
+		for i, object := range objects {
+			if i < unresolved.Size() && unresolved.Get(i) != object {
+				if index := unresolved.IndexOf(object); index != -1 {
+					list.Move(index, i)
+				}
 			}
 		}
 	}
-- 
2.43.0


From a91e11f04f8441da362162a46a0824fb607a0700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:21 +0000
Subject: [PATCH 33/65] fix: corrupt binary data is reported as an error
 instead of panicking or taking all the memory

---
 ecore/binarydecoder.go | 195 +++++++++++++++++++++++++++++++++++------
 1 file changed, 166 insertions(+), 29 deletions(-)

diff --git a/ecore/binarydecoder.go b/ecore/binarydecoder.go
index a0cdf0a..37cf4ab 100644
--- a/ecore/binarydecoder.go
+++ b/ecore/binarydecoder.go
@@ -17,23 +17,25 @@ import (
 	"time"
 
 	"github.com/vmihailenco/msgpack/v5"
+	"github.com/vmihailenco/msgpack/v5/msgpcode"
 )
 
 type binaryDecoderPackageData struct {
 	ePackage   EPackage
-	eClassData []*binaryDecoderClassData
+	eClassData map[int]*binaryDecoderClassData
 }
 
 type binaryDecoderClassData struct {
 	eClass      EClass
 	eFactory    EFactory
-	featureData []*binaryDecoderFeatureData
+	featureData map[int]*binaryDecoderFeatureData
 }
 
 type binaryDecoderFeatureData struct {
 	eFeature    EStructuralFeature
 	eFactory    EFactory
 	eDataType   EDataType
+	eType       EClass
 	featureID   int
 	featureKind binaryFeatureKind
 }
@@ -91,11 +93,17 @@ func (d *BinaryDecoder) DecodeResource() {
 	if size, err = d.decodeInt(); err != nil {
 		return
 	}
-	objects := make([]any, size)
+	objects := []any{}
 	for i := 0; i < size; i++ {
-		if objects[i], err = d.decodeObject(); err != nil {
+		var object EObject
+		if object, err = d.decodeObject(); err != nil {
 			return
 		}
+		if object == nil {
+			err = errors.New("invalid root object")
+			return
+		}
+		objects = append(objects, object)
 	}
 
 	// add objects to resource
@@ -141,8 +149,23 @@ func (d *BinaryDecoder) decodeString() (string, error) {
 	return d.decoder.DecodeString()
 }
 
+// decodeBytes decodes an array of bytes. The array grows with what is read : the size may be wrong.
 func (d *BinaryDecoder) decodeBytes() ([]byte, error) {
-	return d.decoder.DecodeBytes()
+	const maxGrow = 1 << 20
+	size, err := d.decoder.DecodeBytesLen()
+	if err != nil || size < 0 {
+		return nil, err
+	}
+	result := make([]byte, min(size, maxGrow))
+	for read := 0; ; {
+		if err := d.decoder.ReadFull(result[read:]); err != nil {
+			return nil, err
+		}
+		if read = len(result); read == size {
+			return result, nil
+		}
+		result = append(result, make([]byte, min(size-read, read))...)
+	}
 }
 
 func (d *BinaryDecoder) decodeDate() (*time.Time, error) {
@@ -162,7 +185,20 @@ func (d *BinaryDecoder) decodeFloat32() (float32, error) {
 	return d.decoder.DecodeFloat32()
 }
 
-func (d *BinaryDecoder) decodeInterface() (any, error) {
+// decodeObjectID decodes the identifier of an object, which is neither an array nor a map
+func (d *BinaryDecoder) decodeObjectID() (any, error) {
+	code, err := d.decoder.PeekCode()
+	if err != nil {
+		return nil, err
+	}
+	if msgpcode.IsFixedArray(code) || msgpcode.IsFixedMap(code) ||
+		code == msgpcode.Array16 || code == msgpcode.Array32 ||
+		code == msgpcode.Map16 || code == msgpcode.Map32 {
+		return nil, errors.New("invalid object identifier")
+	}
+	if msgpcode.IsBin(code) {
+		return d.decodeBytes()
+	}
 	return d.decoder.DecodeInterface()
 }
 
@@ -193,9 +229,11 @@ func (d *BinaryDecoder) decodeObject() (EObject, error) {
 	if err != nil {
 		return nil, err
 	}
-	switch id {
-	case -1:
+	switch {
+	case id == -1:
 		return nil, nil
+	case id < 0 || id > len(d.objects):
+		return nil, fmt.Errorf("invalid object identifier '%v'", id)
 	default:
 		if len(d.objects) <= int(id) {
 			var eResult EObject
@@ -203,7 +241,10 @@ func (d *BinaryDecoder) decodeObject() (EObject, error) {
 			if err != nil {
 				return nil, err
 			}
-			eObject := eClassData.eFactory.Create(eClassData.eClass).(EObjectInternal)
+			eObject, err := d.createObject(eClassData)
+			if err != nil {
+				return nil, err
+			}
 			eResult = eObject
 			decodedInt, err := d.decodeInt()
 			if err != nil {
@@ -236,7 +277,7 @@ func (d *BinaryDecoder) decodeObject() (EObject, error) {
 
 			if featureID == -2 {
 				// object id attribute
-				objectID, err := d.decodeInterface()
+				objectID, err := d.decodeObjectID()
 				if err != nil {
 					return nil, err
 				}
@@ -255,7 +296,10 @@ func (d *BinaryDecoder) decodeObject() (EObject, error) {
 			for featureID != -1 {
 				eFeatureData := eClassData.featureData[featureID]
 				if eFeatureData == nil {
-					eFeatureData, err = d.newFeatureData(eClassData, featureID)
+					if featureID < 0 {
+						return nil, fmt.Errorf("invalid feature identifier '%v'", featureID)
+					}
+					eFeatureData, err = d.newFeatureData(eClassData)
 					if err != nil {
 						return nil, err
 					}
@@ -279,18 +323,79 @@ func (d *BinaryDecoder) decodeObject() (EObject, error) {
 	}
 }
 
-func (d *BinaryDecoder) decodeObjects(list EList) error {
+// createObject creates an object, a class which can't be instantiated is an error
+func (d *BinaryDecoder) createObject(eClassData *binaryDecoderClassData) (eObject EObjectInternal, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("unable to create an object of class '%v' : %v", eClassData.eClass.GetName(), r)
+		}
+	}()
+	if eClassData.eClass.IsAbstract() {
+		return nil, fmt.Errorf("the class '%v' is abstract", eClassData.eClass.GetName())
+	}
+	eObject, _ = eClassData.eFactory.Create(eClassData.eClass).(EObjectInternal)
+	if eObject == nil {
+		return nil, fmt.Errorf("unable to create an object of class '%v'", eClassData.eClass.GetName())
+	}
+	return eObject, nil
+}
+
+// createFromString creates a value from its literal, an invalid literal is an error
+func (d *BinaryDecoder) createFromString(featureData *binaryDecoderFeatureData, literal string) (value any, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid value '%v' for feature '%v' : %v", literal, featureData.eFeature.GetName(), r)
+		}
+	}()
+	return featureData.eFactory.CreateFromString(featureData.eDataType, literal), nil
+}
+
+// checkReference checks that an object may be referenced by another one through a feature
+func (d *BinaryDecoder) checkReference(eObject EObjectInternal, featureData *binaryDecoderFeatureData, referenced EObject) error {
+	var ancestor, descendant EObject
+	switch featureData.featureKind {
+	case bfkObjectContainment, bfkObjectContainmentProxy, bfkObjectContainmentList, bfkObjectContainmentListProxy:
+		ancestor, descendant = referenced, eObject
+		if referenced == nil && featureData.eFeature.IsMany() {
+			return fmt.Errorf("invalid object in containment '%v'", featureData.eFeature.GetName())
+		}
+	case bfkObjectContainer, bfkObjectContainerProxy:
+		ancestor, descendant = eObject, referenced
+	}
+	if referenced == nil {
+		return nil
+	}
+	if featureData.eType != nil && !featureData.eType.IsSuperTypeOf(referenced.EClass()) {
+		return fmt.Errorf("invalid object of class '%v' in reference '%v'", referenced.EClass().GetName(), featureData.eFeature.GetName())
+	}
+	for ancestor != nil && descendant != nil {
+		if descendant == ancestor {
+			return fmt.Errorf("recursive containment in reference '%v'", featureData.eFeature.GetName())
+		}
+		descendant = descendant.(EObjectInternal).EInternalContainer()
+	}
+	return nil
+}
+
+func (d *BinaryDecoder) decodeObjects(eObject EObjectInternal, featureData *binaryDecoderFeatureData) error {
 	size, err := d.decodeInt()
 	if err != nil {
 		return err
 	}
-	objects := make([]any, size)
+	objects := []any{}
 	for i := 0; i < size; i++ {
 		object, err := d.decodeObject()
 		if err != nil {
 			return err
 		}
-		objects[i] = object
+		if err := d.checkReference(eObject, featureData, object); err != nil {
+			return err
+		}
+		objects = append(objects, object)
+	}
+	list, _ := eObject.EGetFromID(featureData.featureID, false).(EList)
+	if list == nil {
+		return fmt.Errorf("invalid list for feature '%v'", featureData.eFeature.GetName())
 	}
 
 	// If the reference is bidirectional, the list may be at least partially populated :
@@ -330,6 +435,9 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 		if err != nil {
 			return err
 		}
+		if err := d.checkReference(eObject, featureData, decoded); err != nil {
+			return err
+		}
 		eObject.ESetFromID(featureData.featureID, decoded)
 	case bfkObjectList:
 		fallthrough
@@ -338,14 +446,16 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 	case bfkObjectContainmentList:
 		fallthrough
 	case bfkObjectContainmentListProxy:
-		l := eObject.EGetFromID(featureData.featureID, false).(EList)
-		return d.decodeObjects(l)
+		return d.decodeObjects(eObject, featureData)
 	case bfkData:
 		decoded, err := d.decodeString()
 		if err != nil {
 			return err
 		}
-		value := featureData.eFactory.CreateFromString(featureData.eDataType, decoded)
+		value, err := d.createFromString(featureData, decoded)
+		if err != nil {
+			return err
+		}
 		eObject.ESetFromID(featureData.featureID, value)
 	case bfkDataList:
 		size, err := d.decodeInt()
@@ -358,10 +468,16 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 			if err != nil {
 				return err
 			}
-			value := featureData.eFactory.CreateFromString(featureData.eDataType, decoded)
+			value, err := d.createFromString(featureData, decoded)
+			if err != nil {
+				return err
+			}
 			values = append(values, value)
 		}
-		l := eObject.EGetResolve(featureData.eFeature, false).(EList)
+		l, _ := eObject.EGetFromID(featureData.featureID, false).(EList)
+		if l == nil {
+			return fmt.Errorf("invalid list for feature '%v'", featureData.eFeature.GetName())
+		}
 		l.AddAll(NewBasicEList(values))
 	case bfkEnum:
 		var valueStr string
@@ -369,6 +485,9 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 		if err != nil {
 			return err
 		}
+		if id < 0 || id > len(d.enumLiterals) {
+			return fmt.Errorf("invalid enumeration literal identifier '%v'", id)
+		}
 		if len(d.enumLiterals) <= id {
 			decoded, err := d.decodeString()
 			if err != nil {
@@ -379,7 +498,10 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 		} else {
 			valueStr = d.enumLiterals[id]
 		}
-		value := featureData.eFactory.CreateFromString(featureData.eDataType, valueStr)
+		value, err := d.createFromString(featureData, valueStr)
+		if err != nil {
+			return err
+		}
 		eObject.ESetFromID(featureData.featureID, value)
 	case bfkDate:
 		decoded, err := d.decodeDate()
@@ -476,6 +598,9 @@ func (d *BinaryDecoder) decodePackage() (*binaryDecoderPackageData, error) {
 	if err != nil {
 		return nil, err
 	}
+	if id < 0 || id > len(d.packageData) {
+		return nil, fmt.Errorf("invalid package identifier '%v'", id)
+	}
 	if len(d.packageData) <= id {
 		// decode package parameters
 		nsURI, err := d.decodeString()
@@ -494,7 +619,7 @@ func (d *BinaryDecoder) decodePackage() (*binaryDecoderPackageData, error) {
 			packageRegistry = resourceSet.GetPackageRegistry()
 		}
 		ePackage := packageRegistry.GetPackage(nsURI)
-		if ePackage == nil && resourceSet != nil {
+		if ePackage == nil && resourceSet != nil && uri != nil {
 			ePackage, _ = resourceSet.GetEObject(uri, true).(EPackage)
 		}
 		if ePackage == nil {
@@ -515,9 +640,11 @@ func (d *BinaryDecoder) decodeURI() (*URI, error) {
 	if err != nil {
 		return nil, err
 	}
-	switch id {
-	case -1:
+	switch {
+	case id == -1:
 		return nil, nil
+	case id < 0 || id > len(d.uris):
+		return nil, fmt.Errorf("invalid uri identifier '%v'", id)
 	default:
 		var uri *URI
 		if len(d.uris) <= int(id) {
@@ -526,10 +653,12 @@ func (d *BinaryDecoder) decodeURI() (*URI, error) {
 			if err != nil {
 				return nil, err
 			}
-			if uriStr == "" {
+			if uriStr == "" && d.baseURI != nil {
 				uri = d.baseURI
+			} else if uri = NewURI(uriStr); uri == nil {
+				return nil, fmt.Errorf("invalid uri '%v'", uriStr)
 			} else {
-				uri = d.resolveURI(NewURI(uriStr))
+				uri = d.resolveURI(uri)
 			}
 			// add it to the uri array
 			d.uris = append(d.uris, uri)
@@ -554,7 +683,7 @@ func (d *BinaryDecoder) resolveURI(uri *URI) *URI {
 func (d *BinaryDecoder) newPackageData(ePackage EPackage) *binaryDecoderPackageData {
 	return &binaryDecoderPackageData{
 		ePackage:   ePackage,
-		eClassData: make([]*binaryDecoderClassData, ePackage.GetEClassifiers().Size()),
+		eClassData: map[int]*binaryDecoderClassData{},
 	}
 }
 
@@ -571,11 +700,11 @@ func (d *BinaryDecoder) newClassData(ePackageData *binaryDecoderPackageData) (*b
 	return &binaryDecoderClassData{
 		eClass:      eClass,
 		eFactory:    ePackage.GetEFactoryInstance(),
-		featureData: make([]*binaryDecoderFeatureData, eClass.GetFeatureCount()),
+		featureData: map[int]*binaryDecoderFeatureData{},
 	}, nil
 }
 
-func (d *BinaryDecoder) newFeatureData(eClassData *binaryDecoderClassData, featureID int) (*binaryDecoderFeatureData, error) {
+func (d *BinaryDecoder) newFeatureData(eClassData *binaryDecoderClassData) (*binaryDecoderFeatureData, error) {
 	eFeatureName, err := d.decodeString()
 	if err != nil {
 		return nil, err
@@ -584,14 +713,22 @@ func (d *BinaryDecoder) newFeatureData(eClassData *binaryDecoderClassData, featu
 	if eFeature == nil {
 		return nil, fmt.Errorf("unable to find feature '%v' in '%v' EClass", eFeatureName, eClassData.eClass.GetName())
 	}
+	if eFeature.IsTransient() && !eFeature.IsChangeable() {
+		return nil, fmt.Errorf("the feature '%v' of '%v' EClass can't be set", eFeatureName, eClassData.eClass.GetName())
+	}
 	eFeatureData := &binaryDecoderFeatureData{
 		eFeature:    eFeature,
-		featureID:   featureID,
+		featureID:   eClassData.eClass.GetFeatureID(eFeature),
 		featureKind: getBinaryCodecFeatureKind(eFeature),
 	}
 	if eAttribute, _ := eFeature.(EAttribute); eAttribute != nil {
 		eFeatureData.eDataType = eAttribute.GetEAttributeType()
 		eFeatureData.eFactory = eFeatureData.eDataType.GetEPackage().GetEFactoryInstance()
+	} else if eReference, _ := eFeature.(EReference); eReference != nil {
+		// any object is an EObject
+		if eType := eReference.GetEReferenceType(); eType != GetPackage().GetEObject() {
+			eFeatureData.eType = eType
+		}
 	}
 	return eFeatureData, nil
 }
-- 
2.43.0


From d67508ba367a0eae533a29eb9b2cda81259369dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 34/65] fix: proxies of a resource don't take identifiers of
 its object id manager

---
 ecore/eresource_impl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index e59b2a1..0a2bb3c 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -411,7 +411,8 @@ func (r *EResourceImpl) Attached(object EObject) {
 }
 
 func (r *EResourceImpl) DoAttached(object EObject) {
-	if r.objectIDManager != nil {
+	// a proxy stands for an object of another resource
+	if internal, _ := object.(EObjectInternal); r.objectIDManager != nil && (internal == nil || !internal.EIsProxy()) {
 		r.objectIDManager.Register(object)
 	}
 	if r.listeners != nil {
-- 
2.43.0


From 43049ec0861add9273f26cb559b3083e8f467388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 35/65] fix: models survive XML and XMI save and load
 (escaping, prefixes, absent values, order of references, extended names)

---
 ecore/xmldecoder.go    | 319 ++++++++++++++++++++++++++++-------------
 ecore/xmlencoder.go    | 119 +++++++++------
 ecore/xmlnamespaces.go |   2 +-
 ecore/xmlstring.go     |   7 +-
 4 files changed, 293 insertions(+), 154 deletions(-)

diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index e8980dc..f306f8a 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -13,6 +13,7 @@ import (
 	"encoding/xml"
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 
 	"golang.org/x/net/html/charset"
@@ -21,6 +22,7 @@ import (
 const (
 	href                            = "href"
 	typeAttrib                      = "type"
+	nilAttrib                       = "nil"
 	schemaLocationAttrib            = "schemaLocation"
 	noNamespaceSchemaLocationAttrib = "noNamespaceSchemaLocation"
 	xsiURI                          = "http://www.w3.org/2001/XMLSchema-instance"
@@ -77,6 +79,8 @@ type XMLDecoder struct {
 	objects                []EObject
 	deferred               []EObject
 	elements               []string
+	hasRoot                bool
+	hasContent             bool
 	isSuppressDocumentRoot bool
 	isResolveDeferred      bool
 }
@@ -146,10 +150,13 @@ func (l *XMLDecoder) decodeTopObject() {
 		t, tokenErr := l.decoder.Token()
 		if tokenErr != nil {
 			if tokenErr != io.EOF {
-				l.error(NewEDiagnosticImpl(tokenErr.Error(), l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+				l.error(NewEDiagnosticImpl(tokenErr.Error(), l.getLocation(), int(l.decoder.InputOffset()), 0))
+			} else if !l.hasRoot && l.hasContent {
+				l.errorf("document has no root element")
 			}
 			break
 		}
+		l.hasContent = true
 		switch t := t.(type) {
 		case xml.StartElement:
 			l.startElement(t)
@@ -203,11 +210,13 @@ func (l *XMLDecoder) endElement(_ xml.EndElement) {
 			if l.textBuilder.Len() > 0 {
 				l.handleProxy(eObject, l.textBuilder.String())
 			}
-		} else if eType != load_error_type {
+		} else if eFeature, _ := eType.(EStructuralFeature); eFeature != nil {
 			if eObject == nil && len(l.objects) > 0 {
 				eObject = l.objects[len(l.objects)-1]
 			}
-			l.setFeatureValue(eObject, eType.(EStructuralFeature), l.textBuilder.String(), -1)
+			if eObject != nil {
+				l.setFeatureValue(eObject, eFeature, l.textBuilder.String(), -1)
+			}
 		}
 	}
 	l.textBuilder = nil
@@ -215,7 +224,7 @@ func (l *XMLDecoder) endElement(_ xml.EndElement) {
 	// end of the document
 	if len(l.elements) == 0 {
 		for _, deferred := range l.deferred {
-			l.resource.GetContents().Add(deferred)
+			l.attachFn(deferred)
 		}
 		l.handleReferences()
 		l.recordSchemaLocations(eRoot)
@@ -249,6 +258,11 @@ func (l *XMLDecoder) getXSIType() string {
 	return l.getAttributeValue(xsiURI, typeAttrib)
 }
 
+func (l *XMLDecoder) isNil() bool {
+	value := l.getAttributeValue(xsiURI, nilAttrib)
+	return value == "true" || value == "1"
+}
+
 func (l *XMLDecoder) handleSchemaLocation() {
 	xsiSchemaLocation := l.getAttributeValue(xsiURI, schemaLocationAttrib)
 	if len(xsiSchemaLocation) > 0 {
@@ -282,11 +296,7 @@ func (l *XMLDecoder) handlePrefixMapping() {
 func (l *XMLDecoder) startPrefixMapping(prefix string, uri string) {
 	l.namespaces.declarePrefix(prefix, uri)
 	if _, exists := l.prefixesToURI[prefix]; exists {
-		index := 1
-		for _, exists = l.prefixesToURI[prefix+"_"+fmt.Sprintf("%d", index)]; exists; {
-			index++
-		}
-		prefix += "_" + fmt.Sprintf("%d", index)
+		prefix = newXMLPrefix(l.prefixesToURI, prefix)
 	}
 	l.prefixesToURI[prefix] = uri
 	delete(l.spacesToFactories, uri)
@@ -294,6 +304,12 @@ func (l *XMLDecoder) startPrefixMapping(prefix string, uri string) {
 
 func (l *XMLDecoder) processElement(space string, local string) {
 	if len(l.objects) == 0 {
+		if l.hasRoot {
+			l.errorf("Element '%v' found after the root element", local)
+			l.processObject(nil)
+			return
+		}
+		l.hasRoot = true
 		eObject := l.createTopObject(space, local)
 		if eObject != nil {
 			if l.deferred != nil {
@@ -309,13 +325,14 @@ func (l *XMLDecoder) processElement(space string, local string) {
 
 func (l *XMLDecoder) validateObject(eObject EObject, space, typeName string) {
 	if eObject == nil {
-		l.error(NewEDiagnosticImpl("Class {'"+space+"':'"+typeName+"'} not found", l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+		l.error(NewEDiagnosticImpl("Class {'"+space+"':'"+typeName+"'} not found", l.getLocation(), int(l.decoder.InputOffset()), 0))
 	}
 }
 
 func (l *XMLDecoder) processObject(eObject EObject) {
+	// an object and a type are always recorded since they are removed at the end of the element
+	l.objects = append(l.objects, eObject)
 	if eObject != nil {
-		l.objects = append(l.objects, eObject)
 		l.types = append(l.types, load_object_type)
 	} else {
 		l.types = append(l.types, load_error_type)
@@ -330,9 +347,10 @@ func (l *XMLDecoder) createTopObject(space string, local string) EObject {
 			eClass := l.extendedMetaData.GetDocumentRoot(ePackage)
 			// add document root to object list & handle its features
 			eObject := l.createObjectWithFactory(eFactory, eClass, false)
+			l.validateObject(eObject, space, eClass.GetName())
 			l.processObject(eObject)
 			l.handleFeature(space, local)
-			if l.isSuppressDocumentRoot {
+			if child := l.objects[len(l.objects)-1]; l.isSuppressDocumentRoot && child != nil {
 				// remove document root from object list
 				l.objects = l.objects[1:]
 				// remove type info from type list
@@ -340,11 +358,8 @@ func (l *XMLDecoder) createTopObject(space string, local string) EObject {
 
 				// consider new child object as the future new root
 				// remove it from document root
-				if len(l.objects) > 0 {
-					eObject = l.objects[0]
-					// remove new object from its container ( document root )
-					Remove(eObject)
-				}
+				Remove(child)
+				eObject = child
 			}
 			return eObject
 		} else {
@@ -357,6 +372,7 @@ func (l *XMLDecoder) createTopObject(space string, local string) EObject {
 	} else {
 		prefix, _ := l.namespaces.getPrefix(space)
 		l.handleUnknownPackage(prefix, space)
+		l.processObject(nil)
 		return nil
 	}
 }
@@ -378,9 +394,10 @@ func (l *XMLDecoder) createObjectWithFactory(eFactory EFactory, eType EClassifie
 func (l *XMLDecoder) createObjectFromFeatureType(eObject EObject, eFeature EStructuralFeature) EObject {
 	var eResult EObject
 	if eFeature != nil {
-		if eType := eFeature.GetEType(); eType != nil {
-			eFactory := eType.GetEPackage().GetEFactoryInstance()
-			eResult = l.createObjectWithFactory(eFactory, eType, true)
+		if eType := eFeature.GetEType(); eType != nil && eType.GetEPackage() != nil {
+			ePackage := eType.GetEPackage()
+			eResult = l.createObjectWithFactory(ePackage.GetEFactoryInstance(), eType, true)
+			l.validateObject(eResult, ePackage.GetNsURI(), eType.GetName())
 		}
 	}
 	if eResult != nil {
@@ -401,12 +418,16 @@ func (l *XMLDecoder) createObjectFromTypeName(eObject EObject, qname string, eFe
 	eFactory := l.getFactoryForSpace(space)
 	if eFactory == nil {
 		l.handleUnknownPackage(prefix, space)
+		l.processObject(nil)
 		return nil
 	}
 
 	eType := l.getType(eFactory.GetEPackage(), local)
 	eResult := l.createObjectWithFactory(eFactory, eType, true)
 	l.validateObject(eResult, space, local)
+	if eResult != nil && !l.isValidReference(eFeature, eResult) {
+		eResult = nil
+	}
 	if eResult != nil {
 		l.setFeatureValue(eObject, eFeature, eResult, -1)
 	}
@@ -414,6 +435,17 @@ func (l *XMLDecoder) createObjectFromTypeName(eObject EObject, qname string, eFe
 	return eResult
 }
 
+// isValidReference returns if an object is an instance of the type of a reference
+func (l *XMLDecoder) isValidReference(eFeature EStructuralFeature, eObject EObject) bool {
+	eType, _ := eFeature.GetEType().(EClass)
+	eClass := eObject.EClass()
+	if eType != nil && eType != eClass && eType != GetPackage().GetEObject() && !eType.IsSuperTypeOf(eClass) {
+		l.errorf("Object of class '%v' is not valid for feature '%v'", eClass.GetName(), eFeature.GetName())
+		return false
+	}
+	return true
+}
+
 func (l *XMLDecoder) handleFeature(space string, local string) {
 	var eObject EObject
 	if len(l.objects) > 0 {
@@ -423,9 +455,19 @@ func (l *XMLDecoder) handleFeature(space string, local string) {
 		eFeature := l.getFeature(eObject, space, local)
 		if eFeature != nil {
 			if featureKind := l.getLoadFeatureKind(eFeature); featureKind == xlfkSingle || featureKind == xlfkMany {
-				l.textBuilder = &strings.Builder{}
-				l.types = append(l.types, eFeature)
-				l.objects = append(l.objects, nil)
+				if l.isNil() {
+					l.setFeatureValue(eObject, eFeature, nil, -1)
+					l.processObject(nil)
+				} else {
+					l.textBuilder = &strings.Builder{}
+					l.types = append(l.types, eFeature)
+					l.objects = append(l.objects, nil)
+				}
+			} else if l.isNil() {
+				if featureKind == xlfkOther {
+					l.setFeatureValue(eObject, eFeature, nil, -1)
+				}
+				l.processObject(nil)
 			} else {
 				xsiType := l.interfaces.(xmlDecoderInternal).getXSIType()
 				if len(xsiType) > 0 {
@@ -436,10 +478,11 @@ func (l *XMLDecoder) handleFeature(space string, local string) {
 			}
 		} else {
 			l.handleUnknownFeature(local)
+			l.processObject(nil)
 		}
 	} else {
-		l.types = append(l.types, load_error_type)
 		l.handleUnknownFeature(local)
+		l.processObject(nil)
 	}
 
 }
@@ -451,51 +494,64 @@ func (l *XMLDecoder) setFeatureValue(eObject EObject,
 	kind := l.getLoadFeatureKind(eFeature)
 	switch kind {
 	case xlfkSingle:
-		eClassifier := eFeature.GetEType()
-		eDataType := eClassifier.(EDataType)
-		eFactory := eDataType.GetEPackage().GetEFactoryInstance()
 		if value == nil {
 			eObject.ESet(eFeature, nil)
+		} else if value, err := l.createFromString(eFeature, value.(string)); err != nil {
+			l.errorf("%v", err)
 		} else {
-			eObject.ESet(eFeature, eFactory.CreateFromString(eDataType, value.(string)))
+			eObject.ESet(eFeature, value)
 		}
-
 	case xlfkMany:
-		eClassifier := eFeature.GetEType()
-		eDataType := eClassifier.(EDataType)
-		eFactory := eDataType.GetEPackage().GetEFactoryInstance()
 		eList := eObject.EGetResolve(eFeature, false).(EList)
 		if position == -2 {
+			eList.Clear()
 		} else if value == nil {
 			eList.Add(nil)
+		} else if value, err := l.createFromString(eFeature, value.(string)); err != nil {
+			l.errorf("%v", err)
 		} else {
-			eList.Add(eFactory.CreateFromString(eDataType, value.(string)))
+			eList.Add(value)
 		}
 	case xlfkManyAdd:
 		fallthrough
 	case xlfkManyMove:
-		eList := eObject.EGetResolve(eFeature, false).(EList)
+		eList := getUnResolvedList(eObject, eFeature)
 		if position == -1 {
 			eList.Add(value)
 		} else if position == -2 {
 			eList.Clear()
-		} else if eObject == value {
-			index := eList.IndexOf(value)
-			if index == -1 {
-				eList.Insert(position, value)
-			} else {
-				eList.Move(position, index)
-			}
-		} else if kind == xlfkManyAdd {
-			eList.Add(value)
+		} else if size := eList.Size(); position >= size && eList.Add(value) {
+			// added at the end
+		} else if index := eList.IndexOf(value); index == -1 {
+			eList.Insert(position, value)
 		} else {
-			eList.MoveObject(position, value)
+			// value is already in the list because of its opposite
+			eList.Move(index, min(position, size-1))
 		}
 	default:
 		eObject.ESet(eFeature, value)
 	}
 }
 
+// getUnResolvedList returns the list of a reference whose proxies aren't resolved
+func getUnResolvedList(eObject EObject, eFeature EStructuralFeature) EList {
+	eList := eObject.EGetResolve(eFeature, false).(EList)
+	if eObjectList, _ := eList.(EObjectList); eObjectList != nil {
+		return eObjectList.GetUnResolvedList()
+	}
+	return eList
+}
+
+func (l *XMLDecoder) createFromString(eFeature EStructuralFeature, literal string) (value any, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid value '%v' for feature '%v' : %v", literal, eFeature.GetName(), r)
+		}
+	}()
+	eDataType := eFeature.GetEType().(EDataType)
+	return eDataType.GetEPackage().GetEFactoryInstance().CreateFromString(eDataType, literal), nil
+}
+
 func (l *XMLDecoder) getLoadFeatureKind(eFeature EStructuralFeature) xmlLoadFeatureKind {
 	eClassifier := eFeature.GetEType()
 	if eDataType, _ := eClassifier.(EDataType); eDataType != nil {
@@ -504,7 +560,10 @@ func (l *XMLDecoder) getLoadFeatureKind(eFeature EStructuralFeature) xmlLoadFeat
 		}
 		return xlfkSingle
 	} else if eFeature.IsMany() {
-		eReference := eFeature.(EReference)
+		eReference, _ := eFeature.(EReference)
+		if eReference == nil {
+			return xlfkOther
+		}
 		eOpposite := eReference.GetEOpposite()
 		if eOpposite == nil || eOpposite.IsTransient() || !eOpposite.IsMany() {
 			return xlfkManyAdd
@@ -523,13 +582,13 @@ func (l *XMLDecoder) handleAttributes(eObject EObject) {
 			if name == l.idAttributeName {
 				if idManager := l.resource.GetObjectIDManager(); idManager != nil {
 					if err := idManager.SetID(eObject, value); err != nil {
-						l.error(NewEDiagnosticImpl(err.Error(), l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+						l.error(NewEDiagnosticImpl(err.Error(), l.getLocation(), int(l.decoder.InputOffset()), 0))
 					}
 				}
 			} else if name == href {
 				l.handleProxy(eObject, value)
 			} else if name != xmlNS && uri != xmlNS && l.isUserAttribute(attr.Name) {
-				l.setAttributeValue(eObject, name, value)
+				l.setAttributeValue(eObject, uri, name, value)
 			}
 		}
 	}
@@ -559,21 +618,22 @@ func (l *XMLDecoder) getFactoryForSpace(space string) EFactory {
 	return factory
 }
 
-func (l *XMLDecoder) setAttributeValue(eObject EObject, qname string, value string) {
-	local := qname
-	prefix := ""
-	if index := strings.Index(qname, ":"); index > 0 {
-		local = qname[index+1:]
-		prefix = qname[:index-1]
-	}
-	space, _ := l.namespaces.getURI(prefix)
+func (l *XMLDecoder) setAttributeValue(eObject EObject, space string, local string, value string) {
 	eFeature := l.getFeature(eObject, space, local)
 	if eFeature != nil {
-		kind := l.getLoadFeatureKind(eFeature)
-		if kind == xlfkSingle || kind == xlfkMany {
-			l.setFeatureValue(eObject, eFeature, value, -2)
-		} else {
-			l.setValueFromId(eObject, eFeature.(EReference), value)
+		switch kind := l.getLoadFeatureKind(eFeature); kind {
+		case xlfkSingle:
+			l.setFeatureValue(eObject, eFeature, value, -1)
+		case xlfkMany:
+			// list of values separated by white spaces
+			l.setFeatureValue(eObject, eFeature, nil, -2)
+			for _, item := range strings.Fields(value) {
+				l.setFeatureValue(eObject, eFeature, item, -1)
+			}
+		default:
+			if eReference, _ := eFeature.(EReference); eReference != nil {
+				l.setValueFromId(eObject, eReference, value)
+			}
 		}
 	} else {
 		l.handleUnknownFeature(local)
@@ -586,7 +646,7 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 	isFirstID := true
 	position := 0
 	references := []xmlReference{}
-	tokens := strings.Split(ids, " ")
+	tokens := strings.Fields(ids)
 	qName := ""
 	for _, token := range tokens {
 		id := token
@@ -606,6 +666,7 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 					l.handleProxy(eProxy, id)
 				}
 				l.objects = l.objects[:len(l.objects)-1]
+				l.types = l.types[:len(l.types)-1]
 				qName = ""
 				position++
 				continue
@@ -619,8 +680,9 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 			if isFirstID {
 				eOpposite := eReference.GetEOpposite()
 				if eOpposite != nil {
-					mustAdd = eOpposite.IsTransient() || eReference.IsMany()
-					mustAddOrNotOppositeIsMany = mustAdd || !eOpposite.IsMany()
+					// the opposite sets the reference when it is a list
+					mustAdd = eOpposite.IsTransient() || eReference.IsMany() || !eOpposite.IsMany()
+					mustAddOrNotOppositeIsMany = mustAdd
 				} else {
 					mustAdd = true
 					mustAddOrNotOppositeIsMany = true
@@ -631,7 +693,7 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 			if mustAddOrNotOppositeIsMany {
 				resolved := l.resource.GetEObject(id)
 				if resolved != nil {
-					l.setFeatureValue(eObject, eReference, resolved, -1)
+					l.setReference(eObject, eReference, resolved, position)
 					qName = ""
 					position++
 					continue
@@ -654,21 +716,44 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 	}
 }
 
+// setReference sets a reference to an object found with its id
+func (l *XMLDecoder) setReference(eObject EObject, eReference EStructuralFeature, eReferenced EObject, position int) {
+	if !l.isValidReference(eReference, eReferenced) {
+		return
+	}
+	ancestor, descendant := EObject(nil), EObject(nil)
+	if eReference, _ := eReference.(EReference); eReference != nil {
+		if eReference.IsContainment() {
+			ancestor, descendant = eReferenced, eObject
+		} else if eReference.IsContainer() {
+			ancestor, descendant = eObject, eReferenced
+		}
+	}
+	for ; descendant != nil; descendant = descendant.(EObjectInternal).EInternalContainer() {
+		if descendant == ancestor {
+			l.errorf("Recursive containment in feature '%v'", eReference.GetName())
+			return
+		}
+	}
+	l.setFeatureValue(eObject, eReference, eReferenced, position)
+}
+
 func (l *XMLDecoder) handleProxy(eProxy EObject, id string) {
 	resourceURI := l.resource.GetURI()
-	uri, ok := ParseURI(id)
-	if ok != nil || resourceURI == nil {
+	uri, err := ParseURI(id)
+	if err != nil {
+		l.errorf("Invalid URI '%v' : %v", id, err)
 		return
 	}
 	// resolve reference uri
-	if !uri.IsAbsolute() {
+	if resourceURI != nil && !uri.IsAbsolute() {
 		uri = resourceURI.Resolve(uri)
 	}
 
 	// set object proxy uri
 	eProxy.(EObjectInternal).ESetProxyURI(uri)
 
-	if resourceURI.Equals(uri.TrimFragment()) {
+	if resourceURI != nil && resourceURI.Equals(uri.TrimFragment()) {
 		l.sameDocumentProxies = append(l.sameDocumentProxies, eProxy)
 	}
 }
@@ -680,28 +765,29 @@ func (l *XMLDecoder) handleReferences() {
 			eOpposite := eReference.GetEOpposite()
 			if eOpposite != nil && eOpposite.IsChangeable() && eProxy.EIsSet(eReference) {
 				resolvedObject := l.resource.GetEObject(eProxy.(EObjectInternal).EProxyURI().Fragment())
-				if resolvedObject != nil {
+				if resolvedObject != nil && l.isValidReference(eOpposite, resolvedObject) {
 					var proxyHolder EObject
 					if eReference.IsMany() {
-						value := eProxy.EGet(eReference)
-						list := value.(EList)
-						proxyHolder = list.Get(0).(EObject)
+						proxyHolder, _ = getUnResolvedList(eProxy, eReference).Get(0).(EObject)
 					} else {
-						value := eProxy.EGet(eReference)
-						proxyHolder = value.(EObject)
+						proxyHolder, _ = eProxy.EGetResolve(eReference, false).(EObject)
+					}
+					if proxyHolder == nil {
+						continue
 					}
 
 					if eOpposite.IsMany() {
-						value := proxyHolder.EGetResolve(eOpposite, false)
-						holderContents := value.(EList)
+						holderContents := getUnResolvedList(proxyHolder, eOpposite)
 						resolvedIndex := holderContents.IndexOf(resolvedObject)
 						if resolvedIndex != -1 {
-							proxyIndex := holderContents.IndexOf(eProxy)
-							holderContents.Move(proxyIndex, resolvedIndex)
-							if proxyIndex > resolvedIndex {
-								holderContents.Remove(proxyIndex - 1)
-							} else {
-								holderContents.Remove(proxyIndex + 1)
+							// replace the proxy
+							if proxyIndex := holderContents.IndexOf(eProxy); proxyIndex != -1 {
+								holderContents.Move(resolvedIndex, proxyIndex)
+								if resolvedIndex < proxyIndex {
+									holderContents.RemoveAt(proxyIndex - 1)
+								} else {
+									holderContents.RemoveAt(proxyIndex + 1)
+								}
 							}
 							break
 						}
@@ -709,21 +795,18 @@ func (l *XMLDecoder) handleReferences() {
 
 					replace := false
 					if eReference.IsMany() {
-						value := resolvedObject.EGet(eReference)
-						list := value.(EList)
-						replace = !list.Contains(proxyHolder)
+						replace = !getUnResolvedList(resolvedObject, eReference).Contains(proxyHolder)
 					} else {
-						value := resolvedObject.EGet(eReference)
-						object := value.(EObject)
+						object, _ := resolvedObject.EGetResolve(eReference, false).(EObject)
 						replace = object != proxyHolder
 					}
 
 					if replace {
 						if eOpposite.IsMany() {
-							value := proxyHolder.EGetResolve(eOpposite, false)
-							list := value.(EList)
-							ndx := list.IndexOf(eProxy)
-							list.Set(ndx, resolvedObject)
+							list := getUnResolvedList(proxyHolder, eOpposite)
+							if index := list.IndexOf(eProxy); index != -1 {
+								list.Set(index, resolvedObject)
+							}
 						} else {
 							proxyHolder.ESet(eOpposite, resolvedObject)
 						}
@@ -737,10 +820,10 @@ func (l *XMLDecoder) handleReferences() {
 	for _, reference := range l.references {
 		eObject := l.resource.GetEObject(reference.id)
 		if eObject != nil {
-			l.setFeatureValue(reference.object, reference.feature, eObject, reference.pos)
+			l.setReference(reference.object, reference.feature, eObject, reference.pos)
 		} else {
 			l.error(NewEDiagnosticImpl(
-				"Unresolved reference '"+reference.id+"'", l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+				"Unresolved reference '"+reference.id+"'", l.getLocation(), int(l.decoder.InputOffset()), 0))
 		}
 	}
 }
@@ -750,25 +833,44 @@ func (l *XMLDecoder) recordSchemaLocations(eObject EObject) {
 		eClass := eObject.EClass()
 		if xmlnsPrefixMapFeature := l.extendedMetaData.GetXMLNSPrefixMapFeature(eClass); xmlnsPrefixMapFeature != nil {
 			m := eObject.EGet(xmlnsPrefixMapFeature).(EMap)
-			for prefix, nsURI := range l.prefixesToURI {
-				m.Put(prefix, nsURI)
+			prefixes := make([]string, 0, len(l.prefixesToURI))
+			for prefix := range l.prefixesToURI {
+				prefixes = append(prefixes, prefix)
+			}
+			sort.Strings(prefixes)
+			for _, prefix := range prefixes {
+				m.Put(prefix, l.prefixesToURI[prefix])
 			}
 		}
 	}
 }
 
-func (l *XMLDecoder) getFeature(eObject EObject, _, name string) EStructuralFeature {
+func (l *XMLDecoder) getFeature(eObject EObject, space, name string) EStructuralFeature {
 	eClass := eObject.EClass()
 	eFeature := eClass.GetEStructuralFeatureFromName(name)
-	if eFeature == nil && l.extendedMetaData != nil {
-		features := eClass.GetEAllStructuralFeatures()
-		for it := features.Iterator(); it.HasNext(); {
-			feature := it.Next().(EStructuralFeature)
-			if name == l.extendedMetaData.GetName(feature) {
+	if l.extendedMetaData == nil {
+		return eFeature
+	}
+	if eFeature != nil && l.extendedMetaData.GetName(eFeature) == name && l.extendedMetaData.GetNamespace(eFeature) == space {
+		return eFeature
+	}
+	// names and namespaces defined by extended meta data take precedence
+	var found EStructuralFeature
+	for it := eClass.GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
+		feature := it.Next().(EStructuralFeature)
+		if name == l.extendedMetaData.GetName(feature) {
+			namespace := l.extendedMetaData.GetNamespace(feature)
+			if namespace == space {
 				return feature
 			}
+			if found == nil || len(namespace) == 0 {
+				found = feature
+			}
 		}
 	}
+	if found != nil {
+		return found
+	}
 	return eFeature
 }
 
@@ -780,17 +882,28 @@ func (l *XMLDecoder) getType(ePackage EPackage, name string) EClassifier {
 }
 
 func (l *XMLDecoder) handleUnknownFeature(name string) {
-	l.error(NewEDiagnosticImpl("Feature "+name+" not found", l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+	l.error(NewEDiagnosticImpl("Feature "+name+" not found", l.getLocation(), int(l.decoder.InputOffset()), 0))
 }
 
 func (l *XMLDecoder) handleUnknownPackage(name, space string) {
-	l.error(NewEDiagnosticImpl("Package {'"+name+"'='"+space+"'} not found", l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+	l.error(NewEDiagnosticImpl("Package {'"+name+"'='"+space+"'} not found", l.getLocation(), int(l.decoder.InputOffset()), 0))
 }
 
 func (l *XMLDecoder) error(diagnostic EDiagnostic) {
 	l.errorFn(diagnostic)
 }
 
+func (l *XMLDecoder) errorf(format string, args ...any) {
+	l.error(NewEDiagnosticImpl(fmt.Sprintf(format, args...), l.getLocation(), int(l.decoder.InputOffset()), 0))
+}
+
+func (l *XMLDecoder) getLocation() string {
+	if uri := l.resource.GetURI(); uri != nil {
+		return uri.String()
+	}
+	return ""
+}
+
 func (l *XMLDecoder) text(data string) {
 	if l.textBuilder != nil {
 		l.textBuilder.WriteString(data)
diff --git a/ecore/xmlencoder.go b/ecore/xmlencoder.go
index 2a1416a..46dc300 100644
--- a/ecore/xmlencoder.go
+++ b/ecore/xmlencoder.go
@@ -149,7 +149,7 @@ func (s *XMLEncoder) encodeTopObject(eObject EObject) {
 
 	// write result
 	if err := s.str.write(s.w); err != nil {
-		s.error(NewEDiagnosticImpl(err.Error(), s.resource.GetURI().String(), 0, 0))
+		s.error(NewEDiagnosticImpl(err.Error(), s.getLocation(), 0, 0))
 	}
 }
 
@@ -162,17 +162,23 @@ func (s *XMLEncoder) saveTopObject(eObject EObject) {
 	eClass := eObject.EClass()
 	if s.extendedMetaData == nil || s.extendedMetaData.GetDocumentRoot(eClass.GetEPackage()) != eClass {
 		var name string
-		if rootFeature := s.getRootFeature(eClass); rootFeature != nil {
+		rootFeature := s.getRootFeature(eClass)
+		if rootFeature != nil {
 			name = s.getFeatureQName(rootFeature)
 		} else {
 			name = s.getClassQName(eClass)
 		}
 		s.str.startElement(name)
+		if rootFeature != nil && rootFeature.GetEType() != eClass {
+			s.saveTypeAttribute(eClass)
+		}
 		s.saveElementID(eObject)
 		s.saveFeatures(eObject, false)
 	} else {
 		s.str.startElement("")
-		s.saveFeatures(eObject, false)
+		if !s.saveFeatures(eObject, false) {
+			s.error(NewEDiagnosticImpl("Document root has no element", s.getLocation(), 0, 0))
+		}
 	}
 }
 
@@ -213,14 +219,14 @@ func (s *XMLEncoder) saveNamespaces() {
 		if len(prefix) > 0 {
 			attribute += ":" + prefix
 		}
-		s.str.addAttribute(attribute, s.prefixesToURI[prefix])
+		s.str.addAttribute(attribute, escapeXMLAttribute(s.prefixesToURI[prefix]))
 	}
 }
 
 func (s *XMLEncoder) saveElementID(eObject EObject) {
 	if idManager := s.resource.GetObjectIDManager(); len(s.idAttributeName) > 0 && idManager != nil {
 		if id := idManager.GetID(eObject); id != nil {
-			s.str.addAttribute(s.idAttributeName, fmt.Sprintf("%v", id))
+			s.str.addAttribute(s.idAttributeName, escapeXMLAttribute(fmt.Sprintf("%v", id)))
 		}
 	}
 }
@@ -365,10 +371,17 @@ func (s *XMLEncoder) saveDataTypeSingle(eObject EObject, eFeature EStructuralFea
 	val := eObject.EGetResolve(eFeature, false)
 	str, ok := s.getDataType(val, eFeature, true)
 	if ok {
-		s.str.addAttribute(s.getFeatureQName(eFeature), html.EscapeString(str))
+		s.str.addAttribute(s.getFeatureQName(eFeature), escapeXMLAttribute(str))
 	}
 }
 
+// white spaces other than spaces are normalized by parsers in the values of attributes
+var xmlAttributeReplacer = strings.NewReplacer("\t", "&#9;", "\n", "&#10;")
+
+func escapeXMLAttribute(s string) string {
+	return xmlAttributeReplacer.Replace(html.EscapeString(s))
+}
+
 func (s *XMLEncoder) saveDataTypeMany(eObject EObject, eFeature EStructuralFeature) {
 	l := eObject.EGetResolve(eFeature, false).(EList)
 	d := eFeature.GetEType().(EDataType)
@@ -381,11 +394,10 @@ func (s *XMLEncoder) saveDataTypeMany(eObject EObject, eFeature EStructuralFeatu
 			s.str.startElement(name)
 			s.str.addAttribute("xsi:nil", "true")
 			s.str.endEmptyElement()
-			s.uriToPrefixes[xsiURI] = []string{xsiNS}
-			s.prefixesToURI[xsiNS] = xsiURI
+			s.declareXSI()
 		} else {
 			str := f.ConvertToString(d, value)
-			s.str.addContent(name, str)
+			s.str.addContent(name, html.EscapeString(str))
 		}
 	}
 }
@@ -399,13 +411,13 @@ func (s *XMLEncoder) saveEObjectSingle(eObject EObject, eFeature EStructuralFeat
 	value, _ := eObject.EGetResolve(eFeature, false).(EObject)
 	if value != nil {
 		id := s.getHRef(value)
-		s.str.addAttribute(s.getFeatureQName(eFeature), id)
+		s.str.addAttribute(s.getFeatureQName(eFeature), escapeXMLAttribute(id))
 	}
 }
 
 //lint:ignore U1000 func (*XMLEncoder).saveEObjectMany is unused
 func (s *XMLEncoder) saveEObjectMany(eObject EObject, eFeature EStructuralFeature) {
-	l := eObject.EGetResolve(eFeature, false).(EList)
+	l := getUnResolvedList(eObject, eFeature)
 	failure := false
 	var buffer strings.Builder
 	for it := l.Iterator(); ; {
@@ -428,12 +440,13 @@ func (s *XMLEncoder) saveEObjectMany(eObject EObject, eFeature EStructuralFeatur
 		}
 	}
 	if !failure && buffer.Len() > 0 {
-		s.str.addAttribute(s.getFeatureQName(eFeature), buffer.String())
+		s.str.addAttribute(s.getFeatureQName(eFeature), escapeXMLAttribute(buffer.String()))
 	}
 }
 
 func (s *XMLEncoder) saveNil(_ EObject, eFeature EStructuralFeature) {
 	s.str.addNil(s.getFeatureQName(eFeature))
+	s.declareXSI()
 }
 
 func (s *XMLEncoder) saveContainedSingle(eObject EObject, eFeature EStructuralFeature) {
@@ -444,7 +457,7 @@ func (s *XMLEncoder) saveContainedSingle(eObject EObject, eFeature EStructuralFe
 }
 
 func (s *XMLEncoder) saveContainedMany(eObject EObject, eFeature EStructuralFeature) {
-	l := eObject.EGetResolve(eFeature, false).(EList)
+	l := getUnResolvedList(eObject, eFeature)
 	for it := l.Iterator(); it.HasNext(); {
 		value, _ := it.Next().(EObjectInternal)
 		if value != nil {
@@ -474,6 +487,10 @@ func (s *XMLEncoder) saveEObject(o EObject, f EStructuralFeature) {
 
 func (s *XMLEncoder) saveTypeAttribute(eClass EClass) {
 	s.str.addAttribute("xsi:type", s.getClassQName(eClass))
+	s.declareXSI()
+}
+
+func (s *XMLEncoder) declareXSI() {
 	s.uriToPrefixes[xsiURI] = []string{xsiNS}
 	s.prefixesToURI[xsiNS] = xsiURI
 }
@@ -486,7 +503,7 @@ func (s *XMLEncoder) saveHRefSingle(eObject EObject, eFeature EStructuralFeature
 }
 
 func (s *XMLEncoder) saveHRefMany(eObject EObject, eFeature EStructuralFeature) {
-	l := eObject.EGetResolve(eFeature, false).(EList)
+	l := getUnResolvedList(eObject, eFeature)
 	for it := l.Iterator(); it.HasNext(); {
 		value, _ := it.Next().(EObject)
 		if value != nil {
@@ -504,7 +521,7 @@ func (s *XMLEncoder) saveHRef(eObject EObject, eFeature EStructuralFeature) {
 		if eType != eClass && eType != nil && eType.IsAbstract() {
 			s.saveTypeAttribute(eClass)
 		}
-		s.str.addAttribute("href", href)
+		s.str.addAttribute("href", escapeXMLAttribute(href))
 		s.str.endEmptyElement()
 	}
 }
@@ -514,36 +531,23 @@ func (s *XMLEncoder) saveIDRefSingle(eObject EObject, eFeature EStructuralFeatur
 	if value != nil {
 		id := s.getIDRef(value)
 		if id != "" {
-			s.str.addAttribute(s.getFeatureQName(eFeature), id)
+			s.str.addAttribute(s.getFeatureQName(eFeature), escapeXMLAttribute(id))
 		}
 	}
 }
 
 func (s *XMLEncoder) saveIDRefMany(eObject EObject, eFeature EStructuralFeature) {
-	l := eObject.EGetResolve(eFeature, false).(EList)
-	failure := false
-	var buffer strings.Builder
-	for it := l.Iterator(); ; {
-		value, _ := it.Next().(EObject)
-		if value != nil {
-			id := s.getIDRef(value)
-			if id == "" {
-				failure = true
-				if !it.HasNext() {
-					break
-				}
-			} else {
-				buffer.WriteString(id)
-				if it.HasNext() {
-					buffer.WriteString(" ")
-				} else {
-					break
-				}
+	l := getUnResolvedList(eObject, eFeature)
+	ids := make([]string, 0, l.Size())
+	for it := l.Iterator(); it.HasNext(); {
+		if value, _ := it.Next().(EObject); value != nil {
+			if id := s.getIDRef(value); id != "" {
+				ids = append(ids, id)
 			}
 		}
 	}
-	if !failure && buffer.Len() > 0 {
-		s.str.addAttribute(s.getFeatureQName(eFeature), buffer.String())
+	if len(ids) > 0 {
+		s.str.addAttribute(s.getFeatureQName(eFeature), escapeXMLAttribute(strings.Join(ids, " ")))
 	}
 }
 
@@ -640,8 +644,8 @@ func (s *XMLEncoder) getSaveResourceKindSingle(eObject EObject, eFeature EStruct
 }
 
 func (s *XMLEncoder) getSaveResourceKindMany(eObject EObject, eFeature EStructuralFeature) int {
-	list, _ := eObject.EGetResolve(eFeature, false).(EList)
-	if list == nil || list.Empty() {
+	list := getUnResolvedList(eObject, eFeature)
+	if list.Empty() {
 		return skip
 	}
 	for it := list.Iterator(); it.HasNext(); {
@@ -718,11 +722,7 @@ func (s *XMLEncoder) getPrefix(ePackage EPackage, mustHavePrefix bool) string {
 			}
 
 			if uri, exists := s.prefixesToURI[nsPrefix]; exists && uri != nsURI {
-				index := 1
-				for _, exists = s.prefixesToURI[nsPrefix+"_"+fmt.Sprintf("%d", index)]; exists; {
-					index++
-				}
-				nsPrefix += "_" + fmt.Sprintf("%d", index)
+				nsPrefix = newXMLPrefix(s.prefixesToURI, nsPrefix)
 			}
 			s.prefixesToURI[nsPrefix] = nsURI
 		}
@@ -732,6 +732,16 @@ func (s *XMLEncoder) getPrefix(ePackage EPackage, mustHavePrefix bool) string {
 	return nsPrefix
 }
 
+// newXMLPrefix returns a prefix which isn't in prefixes
+func newXMLPrefix(prefixes map[string]string, prefix string) string {
+	for index := 1; ; index++ {
+		newPrefix := fmt.Sprintf("%s_%d", prefix, index)
+		if _, exists := prefixes[newPrefix]; !exists {
+			return newPrefix
+		}
+	}
+}
+
 func (s *XMLEncoder) setPrefixToNamespace(prefixToNamespaceMap EMap) {
 	for it := prefixToNamespaceMap.Iterator(); it.HasNext(); {
 		entry := it.Next().(EMapEntry)
@@ -782,7 +792,9 @@ func (s *XMLEncoder) getHRef(eObject EObject) string {
 				objectURI = s.getResourceHRef(eOtherResource, eObject)
 			}
 		}
-		objectURI = s.resource.GetURI().Relativize(objectURI)
+		if uri := s.resource.GetURI(); uri != nil {
+			objectURI = uri.Relativize(objectURI)
+		}
 		return objectURI.String()
 	}
 	return ""
@@ -796,12 +808,25 @@ func (s *XMLEncoder) getIDRef(eObject EObject) string {
 	if s.resource == nil {
 		return ""
 	} else {
-		return "#" + s.resource.GetURIFragment(eObject)
+		fragment := s.resource.GetURIFragment(eObject)
+		if fragment == "/-1" {
+			// object is not in the resource
+			s.handleDanglingHREF(eObject)
+			return ""
+		}
+		return "#" + fragment
 	}
 }
 
 func (s *XMLEncoder) handleDanglingHREF(eObject EObject) {
-	s.error(NewEDiagnosticImpl(fmt.Sprintf("Object '%p' is not contained in a resource.", eObject), s.resource.GetURI().String(), 0, 0))
+	s.error(NewEDiagnosticImpl(fmt.Sprintf("Object '%p' is not contained in a resource.", eObject), s.getLocation(), 0, 0))
+}
+
+func (s *XMLEncoder) getLocation() string {
+	if uri := s.resource.GetURI(); uri != nil {
+		return uri.String()
+	}
+	return ""
 }
 
 func (s *XMLEncoder) error(diagnostic EDiagnostic) {
diff --git a/ecore/xmlnamespaces.go b/ecore/xmlnamespaces.go
index 3ffae10..c018405 100644
--- a/ecore/xmlnamespaces.go
+++ b/ecore/xmlnamespaces.go
@@ -53,7 +53,7 @@ func (n *xmlNamespaces) declarePrefix(prefix string, uri string) bool {
 	if n.namespacesSize > len(n.namespaces) {
 		n.namespaces = append(n.namespaces, pair{prefix, uri})
 	} else {
-		n.namespaces[n.namespacesSize] = pair{prefix, uri}
+		n.namespaces[n.namespacesSize-1] = pair{prefix, uri}
 	}
 	return false
 }
diff --git a/ecore/xmlstring.go b/ecore/xmlstring.go
index bfeadfc..b940a16 100644
--- a/ecore/xmlstring.go
+++ b/ecore/xmlstring.go
@@ -98,9 +98,10 @@ func (s *xmlString) endElement() {
 }
 
 func (s *xmlString) endEmptyElement() {
-	s.removeLast()
-	s.add("/>")
-	s.addLine()
+	if name := s.removeLast(); name != "" {
+		s.add("/>")
+		s.addLine()
+	}
 	s.lastElementIsStart = false
 }
 
-- 
2.43.0


From 8dbe16946b9ae2b2b3f587ecb740bd3132227ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 36/65] fix: malformed XML is reported as an error (duplicate
 attributes, text out of the root, cyclic containment, read-only features)

---
 ecore/abstracteobject.go       |  4 ++--
 ecore/eobjectidmanager_impl.go |  8 ++++++-
 ecore/xmldecoder.go            | 39 ++++++++++++++++++++++++++--------
 3 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 4cb1ed0..0ae7823 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -418,7 +418,7 @@ func (o *AbstractEObject) ESetFromID(featureID int, newValue any) {
 	}
 	dynamicFeatureID := featureID - o.AsEObjectInternal().EStaticFeatureCount()
 	if dynamicFeatureID < 0 {
-		o.ESet(feature, newValue)
+		panic("The feature '" + feature.GetName() + "' is not changeable")
 	} else {
 		properties := o.AsEObjectInternal().EDynamicProperties()
 		if properties != nil {
@@ -591,7 +591,7 @@ func (o *AbstractEObject) EUnsetFromID(featureID int) {
 	}
 	dynamicFeatureID := featureID - o.AsEObjectInternal().EStaticFeatureCount()
 	if dynamicFeatureID < 0 {
-		o.EUnset(feature)
+		panic("The feature '" + feature.GetName() + "' is not changeable")
 	} else {
 		properties := o.AsEObjectInternal().EDynamicProperties()
 		if properties != nil {
diff --git a/ecore/eobjectidmanager_impl.go b/ecore/eobjectidmanager_impl.go
index 75553a6..b8ac74c 100644
--- a/ecore/eobjectidmanager_impl.go
+++ b/ecore/eobjectidmanager_impl.go
@@ -53,11 +53,17 @@ func (m *EObjectIDManagerImpl) setObjectID(eObject EObject, newID string) {
 	}
 }
 
-func (m *EObjectIDManagerImpl) SetID(eObject EObject, id any) error {
+func (m *EObjectIDManagerImpl) SetID(eObject EObject, id any) (err error) {
 	if id == nil {
 		id = ""
 	}
 	if newID, isString := id.(string); isString {
+		// object without identifier attribute or invalid value for this attribute
+		defer func() {
+			if r := recover(); r != nil {
+				err = fmt.Errorf("id :'%v' can't be set : %v", id, r)
+			}
+		}()
 		SetEObjectID(eObject, newID)
 		m.setObjectID(eObject, newID)
 		return nil
diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index f306f8a..ced43db 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -163,6 +163,9 @@ func (l *XMLDecoder) decodeTopObject() {
 		case xml.EndElement:
 			l.endElement(t)
 		case xml.CharData:
+			if len(l.elements) == 0 && strings.TrimSpace(strings.TrimPrefix(string(t), "\ufeff")) != "" {
+				l.errorf("Text found outside the root element")
+			}
 			l.text(string([]byte(t)))
 		case xml.Comment:
 			l.comment(string([]byte(t)))
@@ -176,6 +179,13 @@ func (l *XMLDecoder) decodeTopObject() {
 
 func (l *XMLDecoder) startElement(e xml.StartElement) {
 	l.elements = append(l.elements, e.Name.Local)
+	for i, attr := range e.Attr {
+		for _, other := range e.Attr[:i] {
+			if attr.Name == other.Name {
+				l.errorf("Attribute '%v' of element '%v' is defined twice", attr.Name.Local, e.Name.Local)
+			}
+		}
+	}
 	l.setAttributes(e.Attr)
 	l.namespaces.pushContext()
 	l.handlePrefixMapping()
@@ -400,7 +410,7 @@ func (l *XMLDecoder) createObjectFromFeatureType(eObject EObject, eFeature EStru
 			l.validateObject(eResult, ePackage.GetNsURI(), eType.GetName())
 		}
 	}
-	if eResult != nil {
+	if eResult != nil && !l.isRecursiveContainment(eObject, eFeature, eResult) {
 		l.setFeatureValue(eObject, eFeature, eResult, -1)
 	}
 	l.processObject(eResult)
@@ -428,7 +438,7 @@ func (l *XMLDecoder) createObjectFromTypeName(eObject EObject, qname string, eFe
 	if eResult != nil && !l.isValidReference(eFeature, eResult) {
 		eResult = nil
 	}
-	if eResult != nil {
+	if eResult != nil && !l.isRecursiveContainment(eObject, eFeature, eResult) {
 		l.setFeatureValue(eObject, eFeature, eResult, -1)
 	}
 	l.processObject(eResult)
@@ -491,6 +501,12 @@ func (l *XMLDecoder) setFeatureValue(eObject EObject,
 	eFeature EStructuralFeature,
 	value any,
 	position int) {
+	defer func() {
+		// feature which can't be changed or invalid value
+		if r := recover(); r != nil {
+			l.errorf("Value of feature '%v' can't be set : %v", eFeature.GetName(), r)
+		}
+	}()
 	kind := l.getLoadFeatureKind(eFeature)
 	switch kind {
 	case xlfkSingle:
@@ -718,11 +734,16 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 
 // setReference sets a reference to an object found with its id
 func (l *XMLDecoder) setReference(eObject EObject, eReference EStructuralFeature, eReferenced EObject, position int) {
-	if !l.isValidReference(eReference, eReferenced) {
+	if !l.isValidReference(eReference, eReferenced) || l.isRecursiveContainment(eObject, eReference, eReferenced) {
 		return
 	}
+	l.setFeatureValue(eObject, eReference, eReferenced, position)
+}
+
+// isRecursiveContainment returns if an object would contain itself when a reference is set
+func (l *XMLDecoder) isRecursiveContainment(eObject EObject, eFeature EStructuralFeature, eReferenced EObject) bool {
 	ancestor, descendant := EObject(nil), EObject(nil)
-	if eReference, _ := eReference.(EReference); eReference != nil {
+	if eReference, _ := eFeature.(EReference); eReference != nil {
 		if eReference.IsContainment() {
 			ancestor, descendant = eReferenced, eObject
 		} else if eReference.IsContainer() {
@@ -731,11 +752,11 @@ func (l *XMLDecoder) setReference(eObject EObject, eReference EStructuralFeature
 	}
 	for ; descendant != nil; descendant = descendant.(EObjectInternal).EInternalContainer() {
 		if descendant == ancestor {
-			l.errorf("Recursive containment in feature '%v'", eReference.GetName())
-			return
+			l.errorf("Recursive containment in feature '%v'", eFeature.GetName())
+			return true
 		}
 	}
-	l.setFeatureValue(eObject, eReference, eReferenced, position)
+	return false
 }
 
 func (l *XMLDecoder) handleProxy(eProxy EObject, id string) {
@@ -765,14 +786,14 @@ func (l *XMLDecoder) handleReferences() {
 			eOpposite := eReference.GetEOpposite()
 			if eOpposite != nil && eOpposite.IsChangeable() && eProxy.EIsSet(eReference) {
 				resolvedObject := l.resource.GetEObject(eProxy.(EObjectInternal).EProxyURI().Fragment())
-				if resolvedObject != nil && l.isValidReference(eOpposite, resolvedObject) {
+				if resolvedObject != nil && resolvedObject != eProxy && l.isValidReference(eOpposite, resolvedObject) {
 					var proxyHolder EObject
 					if eReference.IsMany() {
 						proxyHolder, _ = getUnResolvedList(eProxy, eReference).Get(0).(EObject)
 					} else {
 						proxyHolder, _ = eProxy.EGetResolve(eReference, false).(EObject)
 					}
-					if proxyHolder == nil {
+					if proxyHolder == nil || l.isRecursiveContainment(proxyHolder, eOpposite, resolvedObject) {
 						continue
 					}
 
-- 
2.43.0


From fc6c79f57d1a98845030ea70a1f7bf94954856ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 37/65] fix: NaN is equal to itself in the structural
 comparison of objects

---
 ecore/deepequal.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/ecore/deepequal.go b/ecore/deepequal.go
index cd2e7be..d22d8f4 100644
--- a/ecore/deepequal.go
+++ b/ecore/deepequal.go
@@ -120,7 +120,7 @@ func (dE *deepEqual) equalsPrimitiveList(l1 EList, l2 EList) bool {
 	for i := 0; i < size; i++ {
 		p1 := l1.Get(i)
 		p2 := l2.Get(i)
-		if !reflect.DeepEqual(p1, p2) {
+		if !equalsValue(p1, p2) {
 			return false
 		}
 	}
@@ -157,7 +157,7 @@ func (dE *deepEqual) equalsAttribute(eObj1 EObject, eObj2 EObject, eAttribute EA
 		l2 := value2.(EList)
 		return dE.equalsPrimitiveList(l1, l2)
 	} else {
-		return reflect.DeepEqual(value1, value2)
+		return equalsValue(value1, value2)
 	}
 }
 
@@ -170,3 +170,18 @@ func (dE *deepEqual) equalsReference(eObj1 EObject, eObj2 EObject, eReference ER
 		return dE.equals(value1.(EObject), value2.(EObject))
 	}
 }
+
+// equalsValue returns if two attribute values are equal : NaN is equal to itself
+func equalsValue(value1 any, value2 any) bool {
+	switch v1 := value1.(type) {
+	case float64:
+		if v2, isFloat := value2.(float64); isFloat && v1 != v1 {
+			return v2 != v2
+		}
+	case float32:
+		if v2, isFloat := value2.(float32); isFloat && v1 != v1 {
+			return v2 != v2
+		}
+	}
+	return reflect.DeepEqual(value1, value2)
+}
-- 
2.43.0


From b969daae1dee8b2523621eba01a43119866e14a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 38/65] fix: address mappings apply the longest prefix and
 always end, stale resources are not returned by the resource map

---
 ecore/eresourceset_impl.go  | 33 ++++++++++++++++++--------
 ecore/euriconverter_impl.go | 46 ++++++++++++++++++++++++++++++-------
 2 files changed, 61 insertions(+), 18 deletions(-)

diff --git a/ecore/eresourceset_impl.go b/ecore/eresourceset_impl.go
index c4de8bc..74636ce 100644
--- a/ecore/eresourceset_impl.go
+++ b/ecore/eresourceset_impl.go
@@ -67,14 +67,8 @@ func (r *EResourceSetImpl) GetResources() EList {
 }
 
 func (r *EResourceSetImpl) GetResource(uri *URI, loadOnDemand bool) EResource {
-	if r.uriResourceMap != nil {
-		resource := r.uriResourceMap[uri]
-		if resource != nil {
-			if loadOnDemand && !resource.IsLoaded() {
-				resource.Load()
-			}
-			return resource
-		}
+	if uri == nil {
+		return nil
 	}
 
 	ePackage := r.GetPackageRegistry().GetPackage(uri.String())
@@ -89,10 +83,21 @@ func (r *EResourceSetImpl) GetResource(uri *URI, loadOnDemand bool) EResource {
 	}
 
 	normalizedURI := r.GetURIConverter().Normalize(uri)
+	if r.uriResourceMap != nil {
+		// a resource may have been removed or renamed since it was put in the map
+		resource := r.uriResourceMap[uri]
+		if resource != nil && resource.GetResourceSet() == r.AsEResourceSet() && r.isResourceWithURI(resource, normalizedURI) {
+			if loadOnDemand && !resource.IsLoaded() {
+				resource.Load()
+			}
+			return resource
+		}
+		delete(r.uriResourceMap, uri)
+	}
+
 	for it := r.resources.Iterator(); it.HasNext(); {
 		resource := it.Next().(EResource)
-		resourceURI := r.GetURIConverter().Normalize(resource.GetURI())
-		if resourceURI.Equals(normalizedURI) {
+		if r.isResourceWithURI(resource, normalizedURI) {
 			if loadOnDemand && !resource.IsLoaded() {
 				resource.Load()
 			}
@@ -117,6 +122,11 @@ func (r *EResourceSetImpl) GetResource(uri *URI, loadOnDemand bool) EResource {
 	return nil
 }
 
+func (r *EResourceSetImpl) isResourceWithURI(resource EResource, normalizedURI *URI) bool {
+	uri := resource.GetURI()
+	return uri != nil && r.GetURIConverter().Normalize(uri).Equals(normalizedURI)
+}
+
 func (r *EResourceSetImpl) CreateResource(uri *URI) EResource {
 	resource := NewEResourceImpl()
 	resource.SetURI(uri)
@@ -125,6 +135,9 @@ func (r *EResourceSetImpl) CreateResource(uri *URI) EResource {
 }
 
 func (r *EResourceSetImpl) GetEObject(uri *URI, loadOnDemand bool) EObject {
+	if uri == nil {
+		return nil
+	}
 	trim := uri.TrimFragment()
 	resource := r.GetResource(trim, loadOnDemand)
 	if resource != nil {
diff --git a/ecore/euriconverter_impl.go b/ecore/euriconverter_impl.go
index 454ab92..73ad3cf 100644
--- a/ecore/euriconverter_impl.go
+++ b/ecore/euriconverter_impl.go
@@ -39,21 +39,51 @@ func (r *EURIConverterImpl) GetURIMap() map[URI]URI {
 	return r.uriMap
 }
 
+// maxMappings is the number of mappings applied to a uri above which they are considered endless
+const maxMappings = 100
+
+// Normalize applies the mappings of the converter until none of them applies.
+// If mappings lead back to themselves, each of them is applied only once.
 func (r *EURIConverterImpl) Normalize(uri *URI) *URI {
-	normalized := r.getURIFromMap(uri)
-	if uri.Equals(normalized) {
-		return normalized
+	if uri == nil || len(r.uriMap) == 0 {
+		return uri
+	}
+	normalized := uri
+	for i := 0; i < maxMappings; i++ {
+		_, mapped := r.getURIFromMap(normalized)
+		if mapped == nil || normalized.Equals(mapped) {
+			return normalized
+		}
+		normalized = mapped
+	}
+	// endless mappings
+	normalized = uri
+	applied := map[URI]struct{}{}
+	for {
+		prefix, mapped := r.getURIFromMap(normalized)
+		if mapped == nil {
+			return normalized
+		}
+		if _, isApplied := applied[*prefix]; isApplied {
+			return normalized
+		}
+		applied[*prefix] = struct{}{}
+		normalized = mapped
 	}
-	return r.Normalize(normalized)
 }
 
-func (r *EURIConverterImpl) getURIFromMap(uri *URI) *URI {
+// getURIFromMap returns the mapping with the longest prefix of the uri and the uri it is mapped to
+func (r *EURIConverterImpl) getURIFromMap(uri *URI) (prefix *URI, mapped *URI) {
 	for oldPrefix, newPrefix := range r.uriMap {
-		if r := uri.ReplacePrefix(&oldPrefix, &newPrefix); r != nil {
-			return r
+		if prefix != nil && (len(oldPrefix.path) < len(prefix.path) ||
+			len(oldPrefix.path) == len(prefix.path) && oldPrefix.rawURI >= prefix.rawURI) {
+			continue
+		}
+		if replaced := uri.ReplacePrefix(&oldPrefix, &newPrefix); replaced != nil {
+			prefix, mapped = &oldPrefix, replaced
 		}
 	}
-	return uri
+	return
 }
 
 func (r *EURIConverterImpl) GetURIHandler(uri *URI) EURIHandler {
-- 
2.43.0


From 1c3d7520d90a491705ff7f3062811edd950c1c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 39/65] fix: JSON: references which are not proxies are written
 as references (cycles never ended), contained objects of other resources too;
 write errors are reported; null values and resources without address

---
 ecore/jsonencoder.go | 90 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 74 insertions(+), 16 deletions(-)

diff --git a/ecore/jsonencoder.go b/ecore/jsonencoder.go
index aa89457..7d43638 100644
--- a/ecore/jsonencoder.go
+++ b/ecore/jsonencoder.go
@@ -9,9 +9,24 @@ import (
 	"github.com/karlseguin/jsonwriter"
 )
 
+// jsonErrorWriter keeps the first error of the writer
+type jsonErrorWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (ew *jsonErrorWriter) Write(p []byte) (n int, err error) {
+	if ew.err != nil {
+		return 0, ew.err
+	}
+	n, ew.err = ew.w.Write(p)
+	return n, ew.err
+}
+
 type JSONEncoder struct {
 	resource        EResource
 	w               *jsonwriter.Writer
+	ew              *jsonErrorWriter
 	featureKinds    map[EStructuralFeature]jsonFeatureKind
 	errorFn         func(diagnostic EDiagnostic)
 	idAttributeName string
@@ -19,8 +34,10 @@ type JSONEncoder struct {
 }
 
 func NewJSONEncoder(resource EResource, w io.Writer, options map[string]interface{}) *JSONEncoder {
+	ew := &jsonErrorWriter{w: w}
 	e := &JSONEncoder{
-		w:            jsonwriter.New(w),
+		w:            jsonwriter.New(ew),
+		ew:           ew,
 		resource:     resource,
 		featureKinds: map[EStructuralFeature]jsonFeatureKind{},
 	}
@@ -54,16 +71,32 @@ func (e *JSONEncoder) encodeTopObject(eObject EObject) {
 	e.w.RootObject(func() {
 		e.encodeObject(eObject)
 	})
+	if err := e.ew.err; err != nil {
+		e.errorFn(NewEDiagnosticImpl(err.Error(), e.getLocation(), 0, 0))
+	}
+}
+
+func (e *JSONEncoder) getLocation() string {
+	if e.resource != nil && e.resource.GetURI() != nil {
+		return e.resource.GetURI().String()
+	}
+	return ""
+}
+
+// encodeString writes a text
+// don't use e.w.KeyString because json escaping is bugged in jsonencoder
+func (e *JSONEncoder) encodeString(key string, value string) {
+	e.w.KeyRaw(key, []byte(jsonEscape(value)))
 }
 
 func (e *JSONEncoder) encodeObject(eObject EObject) {
 	eClass := eObject.EClass()
 	// class
-	e.w.KeyString("eClass", e.getClassName(eClass))
+	e.encodeString("eClass", e.getClassName(eClass))
 	// id
 	if idManager := e.resource.GetObjectIDManager(); len(e.idAttributeName) > 0 && idManager != nil {
 		if id := idManager.GetID(eObject); id != nil {
-			e.w.KeyValue(e.idAttributeName, fmt.Sprintf("%v", id))
+			e.encodeString(e.idAttributeName, fmt.Sprintf("%v", id))
 		}
 	}
 	// features
@@ -74,8 +107,26 @@ func (e *JSONEncoder) encodeObject(eObject EObject) {
 }
 
 func (e *JSONEncoder) encodeObjectReference(eObject EObject) {
-	e.w.KeyString("eClass", e.getClassName(eObject.EClass()))
-	e.w.KeyString("eRef", e.getReference(eObject))
+	e.encodeString("eClass", e.getClassName(eObject.EClass()))
+	e.encodeString("eRef", e.getReference(eObject))
+}
+
+// encodeFeatureObject writes the content of objects of the tree and references to other ones
+func (e *JSONEncoder) encodeFeatureObject(eObject EObject, eFeature EStructuralFeature) {
+	eReference, _ := eFeature.(EReference)
+	if eInternal, _ := eObject.(EObjectInternal); eReference != nil && !eReference.IsContainment() ||
+		eInternal != nil && (eInternal.EIsProxy() || eInternal.EInternalResource() != nil) {
+		e.encodeObjectReference(eObject)
+	} else {
+		e.encodeObject(eObject)
+	}
+}
+
+func (e *JSONEncoder) getUnResolvedList(value any) EList {
+	if l, _ := value.(EObjectList); l != nil {
+		return l.GetUnResolvedList()
+	}
+	return value.(EList)
 }
 
 func jsonEscape(i string) string {
@@ -102,16 +153,19 @@ func (e *JSONEncoder) encodeFeatureValue(eObject EObject, eFeature EStructuralFe
 		e.featureKinds[eFeature] = kind
 	}
 
+	if kind == jfkTransient {
+		return
+	}
 	value := eObject.EGetResolve(eFeature, false)
+	if value == nil {
+		e.w.KeyValue(eFeature.GetName(), nil)
+		return
+	}
 	switch kind {
-	case jfkTransient:
 	case jfkData:
 		str, ok := e.getData(value, eFeature)
 		if ok {
-			// don't use e.w.KeyString because json escaping is bugged
-			// in jsonencoder
-			e.w.Key(eFeature.GetName())
-			e.w.Raw([]byte(jsonEscape(str)))
+			e.encodeString(eFeature.GetName(), str)
 		}
 	case jfkDataList:
 		l := value.(EList)
@@ -119,20 +173,22 @@ func (e *JSONEncoder) encodeFeatureValue(eObject EObject, eFeature EStructuralFe
 			for it := l.Iterator(); it.HasNext(); {
 				str, ok := e.getData(it.Next(), eFeature)
 				if ok {
-					e.w.Value(str)
+					e.w.RawValue([]byte(jsonEscape(str)))
+				} else {
+					e.w.Value(nil)
 				}
 			}
 		})
 	case jfkObject:
 		e.w.Object(eFeature.GetName(), func() {
-			e.encodeObject(value.(EObject))
+			e.encodeFeatureObject(value.(EObject), eFeature)
 		})
 	case jfkObjectList:
-		l := value.(EList)
+		l := e.getUnResolvedList(value)
 		e.w.Array(eFeature.GetName(), func() {
 			for it := l.Iterator(); it.HasNext(); {
 				e.w.ArrayObject(func() {
-					e.encodeObject(it.Next().(EObject))
+					e.encodeFeatureObject(it.Next().(EObject), eFeature)
 				})
 			}
 		})
@@ -141,7 +197,7 @@ func (e *JSONEncoder) encodeFeatureValue(eObject EObject, eFeature EStructuralFe
 			e.encodeObjectReference(value.(EObject))
 		})
 	case jfkObjectReferenceList:
-		l := value.(EList)
+		l := e.getUnResolvedList(value)
 		e.w.Array(eFeature.GetName(), func() {
 			for it := l.Iterator(); it.HasNext(); {
 				e.w.ArrayObject(func() {
@@ -189,7 +245,9 @@ func (e *JSONEncoder) getReference(eObject EObject) string {
 				objectURI = e.getResourceReference(eOtherResource, eObject)
 			}
 		}
-		objectURI = e.resource.GetURI().Relativize(objectURI)
+		if uri := e.resource.GetURI(); uri != nil {
+			objectURI = uri.Relativize(objectURI)
+		}
 		return objectURI.String()
 	}
 	return ""
-- 
2.43.0


From 6d9464368e9901d0b5f47d577b270bd3f9dbdd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 40/65] fix: failures of closing a written resource are
 reported

---
 ecore/eresource_impl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index 0a2bb3c..02fc874 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -561,7 +561,9 @@ func (r *EResourceImpl) SaveWithOptions(options map[string]any) {
 			errors.Add(NewEDiagnosticImpl("Unable to create writer for '"+r.uri.String()+"' :"+err.Error(), r.uri.String(), 0, 0))
 		} else if w != nil {
 			r.SaveWithWriter(w, options)
-			w.Close()
+			if err := w.Close(); err != nil {
+				r.GetErrors().Add(NewEDiagnosticImpl("Unable to close writer for '"+r.uri.String()+"' :"+err.Error(), r.uri.String(), 0, 0))
+			}
 		}
 	}
 }
-- 
2.43.0


From dd3a6b92a0c16dd16de77b231eec1c92a1699ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 41/65] fix: resolving a containment proxy does not take an
 already contained object from its container

---
 ecore/abstracteobject.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 0ae7823..90d9ab3 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -73,6 +73,15 @@ func (o *AbstractEObject) AsEObject() EObject {
 	return o.interfaces.(EObject)
 }
 
+// isEContained returns true if the object already has a container : resolving a containment
+// proxy does not take the resolved object away from it
+func isEContained(object EObject) bool {
+	if o, _ := object.(interface{ AsEObjectInternal() EObjectInternal }); o != nil {
+		return o.AsEObjectInternal().EInternalContainer() != nil
+	}
+	return false
+}
+
 // AsEObjectInternal ...
 func (o *AbstractEObject) AsEObjectInternal() EObjectInternal {
 	return o.interfaces.(EObjectInternal)
@@ -316,8 +325,7 @@ func (o *AbstractEObject) eDynamicPropertiesGet(properties EDynamicProperties, d
 							featureID := o.AsEObject().EClass().GetFeatureID(dynamicFeature)
 							oldObject := oldValue.(EObjectInternal)
 							notifications = oldObject.EInverseRemove(o.AsEObject(), EOPPOSITE_FEATURE_BASE-featureID, notifications)
-							if newValue != nil {
-								newObject := newValue.(EObjectInternal)
+							if newObject, _ := newValue.(EObjectInternal); newObject != nil && !isEContained(newObject) {
 								notifications = newObject.EInverseAdd(o.AsEObject(), EOPPOSITE_FEATURE_BASE-featureID, notifications)
 							}
 						} else {
@@ -326,8 +334,7 @@ func (o *AbstractEObject) eDynamicPropertiesGet(properties EDynamicProperties, d
 							oldObject := oldValue.(EObjectInternal)
 							featureID := oldObject.EClass().GetFeatureID(reverseFeature)
 							notifications = oldObject.EInverseRemove(o.AsEObject(), featureID, notifications)
-							if newValue != nil {
-								newObject := newValue.(EObjectInternal)
+							if newObject, _ := newValue.(EObjectInternal); newObject != nil && !isEContained(newObject) {
 								featureID := newObject.EClass().GetFeatureID(reverseFeature)
 								notifications = newObject.EInverseAdd(o.AsEObject(), featureID, notifications)
 							}
-- 
2.43.0


From 0b972025572b156f5f5cf1203a66b9bed6a63978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:15 +0000
Subject: [PATCH 42/65] fix: objects kept in a store keep their transient
 values and their lists when their cache is switched, and their lists and maps
 report what happens to them

---
 ecore/estoreeobject_impl.go | 61 +++++++++++++++++++++++++++++++------
 ecore/estorelist.go         | 53 +++++++++++++++++++++-----------
 2 files changed, 87 insertions(+), 27 deletions(-)

diff --git a/ecore/estoreeobject_impl.go b/ecore/estoreeobject_impl.go
index aef45e9..2705ebf 100644
--- a/ecore/estoreeobject_impl.go
+++ b/ecore/estoreeobject_impl.go
@@ -17,9 +17,17 @@ var unitializedContainer EObject = newEObjectImpl()
 
 type EStoreEObjectImpl struct {
 	ReflectiveEObjectImpl
-	store EStore
-	cache bool
-	mutex rmx.RecursiveMutex
+	store       EStore
+	cache       bool
+	mutex       rmx.RecursiveMutex
+	collections map[int]eStoreCollection // lists and maps which are not in properties
+}
+
+// eStoreCollection is a list or a map which delegates to a store
+type eStoreCollection interface {
+	EList
+	EStoreProvider
+	ECacheProvider
 }
 
 func NewEStoreEObjectImpl(cache bool) *EStoreEObjectImpl {
@@ -84,14 +92,17 @@ func (o *EStoreEObjectImpl) SetEStore(newStore EStore) {
 
 			// set children collection store
 			for _, v := range o.properties {
-				if storeList, isStoreList := v.(*EStoreList); isStoreList {
-					storeList.SetEStore(newStore)
+				if collection, _ := v.(eStoreCollection); collection != nil {
+					collection.SetEStore(newStore)
 				}
 			}
+			for _, collection := range o.collections {
+				collection.SetEStore(newStore)
+			}
 
 			// clear properties because we are not caching
 			if !o.cache {
-				o.properties = nil
+				o.clearProperties()
 			}
 		}
 	}
@@ -109,13 +120,36 @@ func (o *EStoreEObjectImpl) SetCache(cache bool) {
 				sc.SetCache(cache)
 			}
 		}
+		for _, collection := range o.collections {
+			collection.SetCache(cache)
+		}
 		if o.store != nil {
-			o.properties = nil
+			o.clearProperties()
 		}
 	}
 	o.mutex.Unlock()
 }
 
+// clearProperties forgets the values which are in the store : values of transient features are not,
+// lists and maps are the same ones as long as the object lives
+func (o *EStoreEObjectImpl) clearProperties() {
+	properties := o.properties
+	o.properties = nil
+	for featureID, v := range properties {
+		if v == nil {
+			continue
+		}
+		if collection, _ := v.(eStoreCollection); collection != nil {
+			if o.collections == nil {
+				o.collections = map[int]eStoreCollection{}
+			}
+			o.collections[featureID] = collection
+		} else if o.eDynamicFeature(featureID).IsTransient() {
+			o.getProperties()[featureID] = v
+		}
+	}
+}
+
 func (o *EStoreEObjectImpl) IsCache() bool {
 	o.mutex.Lock()
 	defer o.mutex.Unlock()
@@ -180,8 +214,13 @@ func (o *EStoreEObjectImpl) EDynamicIsSet(dynamicFeatureID int) bool {
 	o.mutex.Lock()
 	defer o.mutex.Unlock()
 
-	if o.properties != nil && o.properties[dynamicFeatureID] != nil {
-		return true
+	if o.properties != nil {
+		if value := o.properties[dynamicFeatureID]; value != nil {
+			if list, _ := value.(EList); list != nil && o.eDynamicFeature(dynamicFeatureID).IsMany() {
+				return !list.Empty()
+			}
+			return true
+		}
 	}
 	if store := o.AsEStoreEObject().GetEStore(); store != nil {
 		eFeature := o.eDynamicFeature(dynamicFeatureID)
@@ -204,7 +243,9 @@ func (o *EStoreEObjectImpl) EDynamicGet(dynamicFeatureID int) any {
 		var properties []any
 		if eFeature := o.eDynamicFeature(dynamicFeatureID); !eFeature.IsTransient() {
 			if eFeature.IsMany() {
-				if IsMapType(eFeature) {
+				if collection := o.collections[dynamicFeatureID]; collection != nil {
+					result = collection
+				} else if IsMapType(eFeature) {
 					result = o.createMap(eFeature)
 				} else {
 					result = o.createList(eFeature)
diff --git a/ecore/estorelist.go b/ecore/estorelist.go
index 22268c7..1bac8a2 100644
--- a/ecore/estorelist.go
+++ b/ecore/estorelist.go
@@ -12,6 +12,7 @@ package ecore
 import (
 	"iter"
 	"slices"
+	"strconv"
 
 	"github.com/SokaDance/rmx"
 )
@@ -186,6 +187,7 @@ func (list *EStoreList) IsCache() bool {
 func (list *EStoreList) performAdd(object any) {
 	list.mutex.Lock()
 	index := list.size
+	list.size++
 	// add to data
 	if list.data != nil {
 		list.BasicENotifyingList.performAdd(object)
@@ -201,13 +203,12 @@ func (list *EStoreList) performAdd(object any) {
 			listCallbacks.DidChange()
 		}
 	}
-	// update size
-	list.size++
 	list.mutex.Unlock()
 }
 
 func (list *EStoreList) performInsert(index int, object any) {
 	list.mutex.Lock()
+	list.size++
 	// add to cache
 	if list.data != nil {
 		list.BasicENotifyingList.performInsert(index, object)
@@ -222,14 +223,17 @@ func (list *EStoreList) performInsert(index int, object any) {
 			listCallbacks.DidChange()
 		}
 	}
-	// size
-	list.size++
 	list.mutex.Unlock()
 }
 
 func (list *EStoreList) performInsertAll(index int, c Collection) bool {
 	list.mutex.Lock()
 	defer list.mutex.Unlock()
+	if c == list.interfaces {
+		// the elements of the list are added again : they are the ones before the addition
+		c = NewImmutableEList(slices.Clone(list.ToArray()))
+	}
+	list.size += c.Size()
 	// add to cache
 	if list.data != nil {
 		if !list.BasicENotifyingList.performInsertAll(index, c) {
@@ -249,14 +253,13 @@ func (list *EStoreList) performInsertAll(index int, c Collection) bool {
 			}
 		}
 	}
-	// size
-	list.size += c.Size()
 	return true
 }
 
 func (list *EStoreList) performClear() []any {
 	list.mutex.Lock()
 	var result []any
+	list.size = 0
 
 	//cache
 	if list.data != nil {
@@ -276,8 +279,6 @@ func (list *EStoreList) performClear() []any {
 			list.store.Clear(list.owner, list.feature)
 		}
 	}
-	// size
-	list.size = 0
 	list.mutex.Unlock()
 	return result
 }
@@ -285,6 +286,7 @@ func (list *EStoreList) performClear() []any {
 func (list *EStoreList) performRemove(index int) any {
 	list.mutex.Lock()
 	var result any
+	list.size--
 
 	//cache
 	if list.data != nil {
@@ -303,8 +305,6 @@ func (list *EStoreList) performRemove(index int) any {
 			_ = list.store.Remove(list.owner, list.feature, index, false)
 		}
 	}
-	// size
-	list.size--
 	list.mutex.Unlock()
 	return result
 }
@@ -312,6 +312,7 @@ func (list *EStoreList) performRemove(index int) any {
 func (list *EStoreList) performRemoveRange(fromIndex int, toIndex int) []any {
 	list.mutex.Lock()
 	var result []any
+	list.size -= toIndex - fromIndex
 
 	// cache
 	if list.data != nil {
@@ -320,11 +321,13 @@ func (list *EStoreList) performRemoveRange(fromIndex int, toIndex int) []any {
 	// store
 	if list.store != nil {
 		if list.data == nil {
-			listCallbacks := list.asEListCallbacks()
 			for i := fromIndex; i < toIndex; i++ {
 				object := list.store.Remove(list.owner, list.feature, fromIndex, true)
 				result = append(result, object)
-				listCallbacks.DidRemove(fromIndex, result)
+			}
+			listCallbacks := list.asEListCallbacks()
+			for i := toIndex - 1; i >= fromIndex; i-- {
+				listCallbacks.DidRemove(i, result[i-fromIndex])
 			}
 			listCallbacks.DidChange()
 		} else {
@@ -333,8 +336,6 @@ func (list *EStoreList) performRemoveRange(fromIndex int, toIndex int) []any {
 			}
 		}
 	}
-	// size
-	list.size -= len(result)
 	list.mutex.Unlock()
 	return result
 }
@@ -364,6 +365,10 @@ func (list *EStoreList) performSet(index int, object any) any {
 
 func (list *EStoreList) performMove(oldIndex, newIndex int) any {
 	list.mutex.Lock()
+	defer list.mutex.Unlock()
+	if list.isOwnerInternal() && (newIndex < 0 || newIndex >= list.size) {
+		panic("Index out of bounds: newIndex=" + strconv.Itoa(newIndex) + " size=" + strconv.Itoa(list.size))
+	}
 	var result any
 	if list.data != nil {
 		result = list.BasicENotifyingList.performMove(oldIndex, newIndex)
@@ -378,7 +383,6 @@ func (list *EStoreList) performMove(oldIndex, newIndex int) any {
 			_ = list.store.Move(list.owner, list.feature, oldIndex, newIndex, false)
 		}
 	}
-	list.mutex.Unlock()
 	return result
 }
 
@@ -530,6 +534,21 @@ func (list *EStoreList) Contains(element any) bool {
 	return false
 }
 
+// inverseFeatureID is the identifier of the feature in the class of the owner : it is not
+// the one of the feature in its own class when the feature is inherited
+func (list *EStoreList) inverseFeatureID() int {
+	if list.isOwnerInternal() {
+		return list.GetFeatureID()
+	}
+	return list.feature.GetFeatureID()
+}
+
+// isOwnerInternal tells if the owner is one of the implementations of this package
+func (list *EStoreList) isOwnerInternal() bool {
+	_, isInternal := list.owner.(interface{ AsEObjectInternal() EObjectInternal })
+	return isInternal
+}
+
 func (list *EStoreList) inverseAdd(object any, notifications ENotificationChain) ENotificationChain {
 	internal, _ := object.(EObjectInternal)
 	if internal != nil && list.inverse {
@@ -538,7 +557,7 @@ func (list *EStoreList) inverseAdd(object any, notifications ENotificationChain)
 			inverseFeatureID := internal.EClass().GetFeatureID(inverseReference)
 			return internal.EInverseAdd(list.owner, inverseFeatureID, notifications)
 		} else {
-			featureID := list.feature.GetFeatureID()
+			featureID := list.inverseFeatureID()
 			return internal.EInverseAdd(list.owner, EOPPOSITE_FEATURE_BASE-featureID, notifications)
 		}
 	}
@@ -553,7 +572,7 @@ func (list *EStoreList) inverseRemove(object any, notifications ENotificationCha
 			inverseFeatureID := internal.EClass().GetFeatureID(inverseReference)
 			return internal.EInverseRemove(list.owner, inverseFeatureID, notifications)
 		} else {
-			featureID := list.feature.GetFeatureID()
+			featureID := list.inverseFeatureID()
 			return internal.EInverseRemove(list.owner, EOPPOSITE_FEATURE_BASE-featureID, notifications)
 		}
 	}
-- 
2.43.0


From 48449d004f1801370f3d3d651868850937116f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:12 +0000
Subject: [PATCH 43/65] fix: views of a class and of a package are computed
 without holding their lock

Resolving a proxy super type (or classifier) while a view is computed notifies the class itself, which then takes its own lock again: the thread never came back.
---
 ecore/eclass_ext.go   | 292 ++++++++++++++++++++++++------------------
 ecore/epackage_ext.go |  16 ++-
 2 files changed, 177 insertions(+), 131 deletions(-)

diff --git a/ecore/eclass_ext.go b/ecore/eclass_ext.go
index 6042b54..b8929c2 100644
--- a/ecore/eclass_ext.go
+++ b/ecore/eclass_ext.go
@@ -142,16 +142,29 @@ func (eClass *EClassExt) GetEStructuralFeatureFromName(featureName string) EStru
 }
 
 func (eClass *EClassExt) initNameToFeatureMap() {
-	eClass.initEAllStructuralFeatures()
+	features := eClass.GetEAllStructuralFeatures()
+	if eClass.isInitialized(func() bool { return eClass.nameToFeatureMap != nil }) {
+		return
+	}
+	nameToFeatureMap := make(map[string]EStructuralFeature, features.Size())
+	for itFeature := features.Iterator(); itFeature.HasNext(); {
+		feature := itFeature.Next().(EStructuralFeature)
+		nameToFeatureMap[feature.GetName()] = feature
+	}
 	eClass.mutex.Lock()
+	defer eClass.mutex.Unlock()
 	if eClass.nameToFeatureMap == nil {
-		eClass.nameToFeatureMap = make(map[string]EStructuralFeature)
-		for itFeature := eClass.eAllStructuralFeatures.Iterator(); itFeature.HasNext(); {
-			feature := itFeature.Next().(EStructuralFeature)
-			eClass.nameToFeatureMap[feature.GetName()] = feature
-		}
+		eClass.nameToFeatureMap = nameToFeatureMap
 	}
-	eClass.mutex.Unlock()
+}
+
+// isInitialized tells if a view of the class is already computed.
+// Views are computed without lock : a super type which is a proxy is then resolved, this notifies the class and its
+// sub classes, which forget their views. The first of the views computed by several threads is kept.
+func (eClass *EClassExt) isInitialized(isInitialized func() bool) bool {
+	eClass.mutex.Lock()
+	defer eClass.mutex.Unlock()
+	return isInitialized()
 }
 
 func (eClass *EClassExt) GetFeatureID(feature EStructuralFeature) int {
@@ -233,189 +246,218 @@ func (eClass *EClassExt) initECrossReferenceFeatures() {
 }
 
 func (eClass *EClassExt) initFeaturesSubSet() {
-	eClass.initEAllStructuralFeatures()
-	eClass.mutex.Lock()
-	if eClass.eContainmentFeatures == nil {
-		containments := []any{}
-		crossReferences := []any{}
-		for itFeature := eClass.eAllStructuralFeatures.Iterator(); itFeature.HasNext(); {
-			ref, isRef := itFeature.Next().(EReference)
-			if isRef {
-				if ref.IsContainment() {
-					if !ref.IsDerived() {
-						containments = append(containments, ref)
-					}
-				} else if !ref.IsContainer() {
-					if !ref.IsDerived() {
-						crossReferences = append(crossReferences, ref)
-					}
+	features := eClass.GetEAllStructuralFeatures()
+	if eClass.isInitialized(func() bool { return eClass.eContainmentFeatures != nil }) {
+		return
+	}
+	containments := []any{}
+	crossReferences := []any{}
+	for itFeature := features.Iterator(); itFeature.HasNext(); {
+		ref, isRef := itFeature.Next().(EReference)
+		if isRef {
+			if ref.IsContainment() {
+				if !ref.IsDerived() {
+					containments = append(containments, ref)
+				}
+			} else if !ref.IsContainer() {
+				if !ref.IsDerived() {
+					crossReferences = append(crossReferences, ref)
 				}
 			}
-
 		}
+
+	}
+
+	eClass.mutex.Lock()
+	defer eClass.mutex.Unlock()
+	if eClass.eContainmentFeatures == nil {
 		eClass.eContainmentFeatures = NewImmutableEList(containments)
 		eClass.eCrossReferenceFeatures = NewImmutableEList(crossReferences)
 	}
-	eClass.mutex.Unlock()
 }
 
 func (eClass *EClassExt) initEAllAttributes() {
-	eClass.mutex.Lock()
-	if eClass.eAllAttributes == nil {
-
-		attributes := []any{}
-		allAttributes := []any{}
-		visited := map[any]struct{}{}
-		var eIDAttribute EAttribute = nil
-		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
-			superAttributes := itClass.Next().(EClass).GetEAllAttributes()
-			for itAttribute := superAttributes.Iterator(); itAttribute.HasNext(); {
-				attribute := itAttribute.Next().(EAttribute)
-				allAttributes = appendNew(allAttributes, visited, attribute)
-				if attribute.IsID() && eIDAttribute == nil {
-					eIDAttribute = attribute
-				}
+	if eClass.isInitialized(func() bool { return eClass.eAllAttributes != nil }) {
+		return
+	}
+	attributes := []any{}
+	allAttributes := []any{}
+	visited := map[any]struct{}{}
+	var eIDAttribute EAttribute = nil
+	for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
+		superAttributes := itClass.Next().(EClass).GetEAllAttributes()
+		for itAttribute := superAttributes.Iterator(); itAttribute.HasNext(); {
+			attribute := itAttribute.Next().(EAttribute)
+			allAttributes = appendNew(allAttributes, visited, attribute)
+			if attribute.IsID() && eIDAttribute == nil {
+				eIDAttribute = attribute
 			}
 		}
+	}
 
-		for itFeature := eClass.GetEStructuralFeatures().Iterator(); itFeature.HasNext(); {
-			attribute, isAttribute := itFeature.Next().(EAttribute)
-			if isAttribute {
-				attributes = append(attributes, attribute)
-				allAttributes = appendNew(allAttributes, visited, attribute)
-				if attribute.IsID() && eIDAttribute == nil {
-					eIDAttribute = attribute
-				}
+	for itFeature := eClass.GetEStructuralFeatures().Iterator(); itFeature.HasNext(); {
+		attribute, isAttribute := itFeature.Next().(EAttribute)
+		if isAttribute {
+			attributes = append(attributes, attribute)
+			allAttributes = appendNew(allAttributes, visited, attribute)
+			if attribute.IsID() && eIDAttribute == nil {
+				eIDAttribute = attribute
 			}
 		}
+	}
+
+	eClass.mutex.Lock()
+	defer eClass.mutex.Unlock()
+	if eClass.eAllAttributes == nil {
 		eClass.eIDAttribute = eIDAttribute
 		eClass.eAttributes = NewImmutableEList(attributes)
 		eClass.eAllAttributes = NewImmutableEList(allAttributes)
 	}
-	eClass.mutex.Unlock()
 }
 
 func (eClass *EClassExt) initEAllReferences() {
-	eClass.mutex.Lock()
-	if eClass.eAllReferences == nil {
-		allReferences := []any{}
-		references := []any{}
-		visited := map[any]struct{}{}
-		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
-			superReferences := itClass.Next().(EClass).GetEAllReferences()
-			allReferences = appendNew(allReferences, visited, superReferences.ToArray()...)
-		}
+	if eClass.isInitialized(func() bool { return eClass.eAllReferences != nil }) {
+		return
+	}
+	allReferences := []any{}
+	references := []any{}
+	visited := map[any]struct{}{}
+	for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
+		superReferences := itClass.Next().(EClass).GetEAllReferences()
+		allReferences = appendNew(allReferences, visited, superReferences.ToArray()...)
+	}
 
-		for itFeature := eClass.GetEStructuralFeatures().Iterator(); itFeature.HasNext(); {
-			reference, isReference := itFeature.Next().(EReference)
-			if isReference {
-				references = append(references, reference)
-				allReferences = appendNew(allReferences, visited, reference)
-			}
+	for itFeature := eClass.GetEStructuralFeatures().Iterator(); itFeature.HasNext(); {
+		reference, isReference := itFeature.Next().(EReference)
+		if isReference {
+			references = append(references, reference)
+			allReferences = appendNew(allReferences, visited, reference)
 		}
+	}
 
+	eClass.mutex.Lock()
+	defer eClass.mutex.Unlock()
+	if eClass.eAllReferences == nil {
 		eClass.eReferences = NewImmutableEList(references)
 		eClass.eAllReferences = NewImmutableEList(allReferences)
 	}
-	eClass.mutex.Unlock()
 }
 
 func (eClass *EClassExt) initEAllContainments() {
-	eClass.initEAllReferences()
+	references := eClass.GetEAllReferences()
+	if eClass.isInitialized(func() bool { return eClass.eAllContainments != nil }) {
+		return
+	}
+	allContainments := []any{}
+	for itReference := references.Iterator(); itReference.HasNext(); {
+		reference := itReference.Next().(EReference)
+		if reference.IsContainment() {
+			allContainments = append(allContainments, reference)
+		}
+	}
+
 	eClass.mutex.Lock()
+	defer eClass.mutex.Unlock()
 	if eClass.eAllContainments == nil {
-		allContainments := []any{}
-		for itReference := eClass.eAllReferences.Iterator(); itReference.HasNext(); {
-			reference := itReference.Next().(EReference)
-			if reference.IsContainment() {
-				allContainments = append(allContainments, reference)
-			}
-		}
 		eClass.eAllContainments = NewImmutableEList(allContainments)
 	}
-	eClass.mutex.Unlock()
 }
 
 func (eClass *EClassExt) initEAllCrossReferences() {
-	eClass.initEAllReferences()
+	references := eClass.GetEAllReferences()
+	if eClass.isInitialized(func() bool { return eClass.eAllCrossReferences != nil }) {
+		return
+	}
+	allCrossReferences := []any{}
+	for itReference := references.Iterator(); itReference.HasNext(); {
+		reference := itReference.Next().(EReference)
+		if !reference.IsContainment() && !reference.IsContainer() {
+			allCrossReferences = append(allCrossReferences, reference)
+		}
+	}
+
 	eClass.mutex.Lock()
+	defer eClass.mutex.Unlock()
 	if eClass.eAllCrossReferences == nil {
-		allCrossReferences := []any{}
-		for itReference := eClass.eAllReferences.Iterator(); itReference.HasNext(); {
-			reference := itReference.Next().(EReference)
-			if !reference.IsContainment() && !reference.IsContainer() {
-				allCrossReferences = append(allCrossReferences, reference)
-			}
-		}
 		eClass.eAllCrossReferences = NewImmutableEList(allCrossReferences)
 	}
-	eClass.mutex.Unlock()
 }
 
 func (eClass *EClassExt) initEAllOperations() {
-	eClass.mutex.Lock()
-	if eClass.eAllOperations == nil {
-		allOperations := []any{}
-		visited := map[any]struct{}{}
-		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
-			superOperations := itClass.Next().(EClass).GetEAllOperations()
-			allOperations = appendNew(allOperations, visited, superOperations.ToArray()...)
-		}
+	if eClass.isInitialized(func() bool { return eClass.eAllOperations != nil }) {
+		return
+	}
+	allOperations := []any{}
+	visited := map[any]struct{}{}
+	for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
+		superOperations := itClass.Next().(EClass).GetEAllOperations()
+		allOperations = appendNew(allOperations, visited, superOperations.ToArray()...)
+	}
 
-		operationID := len(allOperations)
-		for itFeature := eClass.GetEOperations().Iterator(); itFeature.HasNext(); {
-			operation, isOperation := itFeature.Next().(EOperation)
-			if isOperation {
-				operation.SetOperationID(operationID)
-				operationID++
-				allOperations = append(allOperations, operation)
-			}
+	operationID := len(allOperations)
+	for itFeature := eClass.GetEOperations().Iterator(); itFeature.HasNext(); {
+		operation, isOperation := itFeature.Next().(EOperation)
+		if isOperation {
+			operation.SetOperationID(operationID)
+			operationID++
+			allOperations = append(allOperations, operation)
 		}
+	}
+
+	eClass.mutex.Lock()
+	defer eClass.mutex.Unlock()
+	if eClass.eAllOperations == nil {
 		eClass.eAllOperations = NewImmutableEList(allOperations)
 	}
-	eClass.mutex.Unlock()
 }
 
 func (eClass *EClassExt) initEAllStructuralFeatures() {
+	if eClass.isInitialized(func() bool { return eClass.eAllStructuralFeatures != nil }) {
+		return
+	}
+	allFeatures := []any{}
+	visited := map[any]struct{}{}
+	for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
+		superFeatures := itClass.Next().(EClass).GetEAllStructuralFeatures()
+		allFeatures = appendNew(allFeatures, visited, superFeatures.ToArray()...)
+	}
+
+	featureID := len(allFeatures)
+	for itFeature := eClass.GetEStructuralFeatures().Iterator(); itFeature.HasNext(); {
+		feature := itFeature.Next().(EStructuralFeature)
+		feature.SetFeatureID(featureID)
+		featureID++
+		allFeatures = append(allFeatures, feature)
+	}
+
 	eClass.mutex.Lock()
+	defer eClass.mutex.Unlock()
 	if eClass.eAllStructuralFeatures == nil {
 		eClass.eCrossReferenceFeatures = nil
 		eClass.eContainmentFeatures = nil
 		eClass.nameToFeatureMap = nil
-
-		allFeatures := []any{}
-		visited := map[any]struct{}{}
-		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
-			superFeatures := itClass.Next().(EClass).GetEAllStructuralFeatures()
-			allFeatures = appendNew(allFeatures, visited, superFeatures.ToArray()...)
-		}
-
-		featureID := len(allFeatures)
-		for itFeature := eClass.GetEStructuralFeatures().Iterator(); itFeature.HasNext(); {
-			feature := itFeature.Next().(EStructuralFeature)
-			feature.SetFeatureID(featureID)
-			featureID++
-			allFeatures = append(allFeatures, feature)
-		}
 		eClass.eAllStructuralFeatures = NewImmutableEList(allFeatures)
 	}
-	eClass.mutex.Unlock()
 }
 
 func (eClass *EClassExt) initEAllSuperTypes() {
+	if eClass.isInitialized(func() bool { return eClass.eAllSuperTypes != nil }) {
+		return
+	}
+	allSuperTypes := []any{}
+	visited := map[any]struct{}{}
+	for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
+		superClass := itClass.Next().(EClass)
+		superTypes := superClass.GetEAllSuperTypes()
+		allSuperTypes = appendNew(allSuperTypes, visited, superTypes.ToArray()...)
+		allSuperTypes = appendNew(allSuperTypes, visited, superClass)
+	}
+
 	eClass.mutex.Lock()
+	defer eClass.mutex.Unlock()
 	if eClass.eAllSuperTypes == nil {
-		allSuperTypes := []any{}
-		visited := map[any]struct{}{}
-		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
-			superClass := itClass.Next().(EClass)
-			superTypes := superClass.GetEAllSuperTypes()
-			allSuperTypes = appendNew(allSuperTypes, visited, superTypes.ToArray()...)
-			allSuperTypes = appendNew(allSuperTypes, visited, superClass)
-		}
 		eClass.eAllSuperTypes = NewImmutableEList(allSuperTypes)
 	}
-	eClass.mutex.Unlock()
 }
 
 func (eClass *EClassExt) initEIDAttribute() {
diff --git a/ecore/epackage_ext.go b/ecore/epackage_ext.go
index 6a064ea..6fb0c20 100644
--- a/ecore/epackage_ext.go
+++ b/ecore/epackage_ext.go
@@ -55,19 +55,23 @@ func (pack *EPackageExt) Initialize() {
 func (pack *EPackageExt) GetEClassifier(classifier string) EClassifier {
 	// retrieve map
 	pack.classifierMutex.Lock()
-	defer pack.classifierMutex.Unlock()
+	classifierCache := pack.classifierCache
+	pack.classifierMutex.Unlock()
 
-	// initialize map if needed
-	if pack.classifierCache == nil {
-		pack.classifierCache = map[string]EClassifier{}
+	// initialize map if needed, without lock : a classifier which is a proxy is then resolved, and this resets the map
+	if classifierCache == nil {
+		classifierCache = map[string]EClassifier{}
 		for itClassifier := pack.GetEClassifiers().Iterator(); itClassifier.HasNext(); {
 			classifier := itClassifier.Next().(EClassifier)
-			pack.classifierCache[classifier.GetName()] = classifier
+			classifierCache[classifier.GetName()] = classifier
 		}
+		pack.classifierMutex.Lock()
+		pack.classifierCache = classifierCache
+		pack.classifierMutex.Unlock()
 	}
 
 	// read map value
-	return pack.classifierCache[classifier]
+	return classifierCache[classifier]
 }
 
 // resetClassifiers forgets the classifiers indexed by name
-- 
2.43.0


From e9b41ea9ce5740f2dd72927e90051b34cc2947cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:12 +0000
Subject: [PATCH 44/65] fix: metamodels, resource sets and registries may be
 read by several threads

Lists, default values, classifier, feature and operation identifiers, contents views and registries were created by the first read without synchronisation.
---
 ecore/compacteobject_impl.go    | 22 +++++-----------------
 ecore/eannotation_impl.go       |  5 ++++-
 ecore/eclass_impl.go            |  5 ++++-
 ecore/eclassifier_ext.go        | 10 ++++++++++
 ecore/ecodecregistry.go         |  7 +++++--
 ecore/edatatype_ext.go          |  1 -
 ecore/eenum_impl.go             |  3 ++-
 ecore/egenerictype_impl.go      |  3 ++-
 ecore/emodelelement_impl.go     |  3 ++-
 ecore/eoperation_ext.go         | 21 +++++++++++++++++++++
 ecore/eoperation_impl.go        |  4 +++-
 ecore/epackage_impl.go          |  4 +++-
 ecore/epackageregistry.go       |  7 +++++--
 ecore/ereference_impl.go        |  3 ++-
 ecore/eresource_impl.go         |  8 ++++++++
 ecore/eresourceset_impl.go      | 15 +++++++++++++++
 ecore/estructuralfeature_ext.go | 10 ++++++++++
 ecore/etypeparameter_impl.go    |  3 ++-
 ecore/extendedmetadata.go       | 16 +++++++++++++++-
 19 files changed, 118 insertions(+), 32 deletions(-)

diff --git a/ecore/compacteobject_impl.go b/ecore/compacteobject_impl.go
index d0bcccd..51f184e 100644
--- a/ecore/compacteobject_impl.go
+++ b/ecore/compacteobject_impl.go
@@ -26,10 +26,8 @@ const (
 	adapters_flag   = 1 << 3
 	proxy_flag      = 1 << 4
 	class_flag      = 1 << 5
-	contents_flag   = 1 << 6
-	cross_flag      = 1 << 7
 	properties_flag = 1 << 8
-	fields_mask     = container_flag | resource_flag | adapters_flag | proxy_flag | class_flag | contents_flag | cross_flag | properties_flag
+	fields_mask     = container_flag | resource_flag | adapters_flag | proxy_flag | class_flag | properties_flag
 	first_flag      = container_flag
 	last_flag       = properties_flag
 )
@@ -211,24 +209,14 @@ func (o *CompactEObjectImpl) ESetProxyURI(uri *URI) {
 
 // EContents ...
 func (o *CompactEObjectImpl) EContents() EList {
-	contents := o.getField(contents_flag)
-	if contents == nil {
-		eObject := o.AsEObject()
-		contents = newEContentsList(eObject, eObject.EClass().GetEContainmentFeatures(), true)
-		o.setField(contents_flag, contents)
-	}
-	return contents.(EList)
+	eObject := o.AsEObject()
+	return newEContentsList(eObject, eObject.EClass().GetEContainmentFeatures(), true)
 }
 
 // ECrossReferences ...
 func (o *CompactEObjectImpl) ECrossReferences() EList {
-	crossReferences := o.getField(cross_flag)
-	if crossReferences == nil {
-		eObject := o.AsEObject()
-		crossReferences = newEContentsList(eObject, eObject.EClass().GetECrossReferenceFeatures(), true)
-		o.setField(cross_flag, crossReferences)
-	}
-	return crossReferences.(EList)
+	eObject := o.AsEObject()
+	return newEContentsList(eObject, eObject.EClass().GetECrossReferenceFeatures(), true)
 }
 
 // ESetContainer ...
diff --git a/ecore/eannotation_impl.go b/ecore/eannotation_impl.go
index 693557e..98afac6 100644
--- a/ecore/eannotation_impl.go
+++ b/ecore/eannotation_impl.go
@@ -40,7 +40,10 @@ func newEAnnotationImpl() *EAnnotationImpl {
 func (e *EAnnotationImpl) Initialize() {
 	e.EModelElementExt.Initialize()
 	e.source = ""
-
+	// created now, not when they are first read: an element may be read by several threads
+	e.GetContents()
+	e.GetDetails()
+	e.GetReferences()
 }
 
 func (e *EAnnotationImpl) asEAnnotation() EAnnotation {
diff --git a/ecore/eclass_impl.go b/ecore/eclass_impl.go
index cf633d2..cf1a59e 100644
--- a/ecore/eclass_impl.go
+++ b/ecore/eclass_impl.go
@@ -62,7 +62,10 @@ func (e *EClassImpl) Initialize() {
 	e.EClassifierExt.Initialize()
 	e.isAbstract = false
 	e.isInterface = false
-
+	// created now, not when they are first read: an element may be read by several threads
+	e.GetEOperations()
+	e.GetEStructuralFeatures()
+	e.GetESuperTypes()
 }
 
 func (e *EClassImpl) asEClass() EClass {
diff --git a/ecore/eclassifier_ext.go b/ecore/eclassifier_ext.go
index 6f7a151..1ebe40f 100644
--- a/ecore/eclassifier_ext.go
+++ b/ecore/eclassifier_ext.go
@@ -9,9 +9,12 @@
 
 package ecore
 
+import "sync"
+
 // EClassifierExt is the extesnion of the model object 'EClassifier'
 type EClassifierExt struct {
 	EClassifierImpl
+	classifierIDMutex sync.Mutex
 }
 
 func newEClassifierExt() *EClassifierExt {
@@ -28,6 +31,13 @@ func (eClassifier *EClassifierExt) initClassifierID() int {
 	return -1
 }
 
+// GetClassifierID get the value of classifierID
+func (eClassifier *EClassifierExt) GetClassifierID() int {
+	eClassifier.classifierIDMutex.Lock()
+	defer eClassifier.classifierIDMutex.Unlock()
+	return eClassifier.EClassifierImpl.GetClassifierID()
+}
+
 func (eClassifier *EClassifierExt) GetDefaultValue() any {
 	return nil
 }
diff --git a/ecore/ecodecregistry.go b/ecore/ecodecregistry.go
index c1c1d5e..99f5d47 100644
--- a/ecore/ecodecregistry.go
+++ b/ecore/ecodecregistry.go
@@ -9,6 +9,8 @@
 
 package ecore
 
+import "sync"
+
 const (
 	DEFAULT_EXTENSION = "*"
 )
@@ -20,9 +22,10 @@ type ECodecRegistry interface {
 }
 
 var resourceCodecRegistryInstance ECodecRegistry
+var resourceCodecRegistryOnce sync.Once
 
 func GetCodecRegistry() ECodecRegistry {
-	if resourceCodecRegistryInstance == nil {
+	resourceCodecRegistryOnce.Do(func() {
 		resourceCodecRegistryInstance = NewECodecRegistryImpl()
 		// initialize with default codecs
 		extensionToCodecs := resourceCodecRegistryInstance.GetExtensionToCodecMap()
@@ -32,6 +35,6 @@ func GetCodecRegistry() ECodecRegistry {
 		extensionToCodecs["sqlite"] = &SQLCodec{}
 		protocolToCodecs := resourceCodecRegistryInstance.GetProtocolToCodecMap()
 		protocolToCodecs["memory"] = &NoCodec{}
-	}
+	})
 	return resourceCodecRegistryInstance
 }
diff --git a/ecore/edatatype_ext.go b/ecore/edatatype_ext.go
index 59e093e..4d03fd4 100644
--- a/ecore/edatatype_ext.go
+++ b/ecore/edatatype_ext.go
@@ -60,7 +60,6 @@ func (eDataType *EDataTypeExt) GetDefaultValue() any {
 		case "string", "java.lang.String":
 			return ""
 		}
-		eDataType.defaultValueIsSet = true
 	}
 	return eDataType.defaultValue
 }
diff --git a/ecore/eenum_impl.go b/ecore/eenum_impl.go
index a208b13..b8ef8fd 100644
--- a/ecore/eenum_impl.go
+++ b/ecore/eenum_impl.go
@@ -30,7 +30,8 @@ func newEEnumImpl() *EEnumImpl {
 
 func (e *EEnumImpl) Initialize() {
 	e.EDataTypeExt.Initialize()
-
+	// created now, not when they are first read: an element may be read by several threads
+	e.GetELiterals()
 }
 
 func (e *EEnumImpl) asEEnum() EEnum {
diff --git a/ecore/egenerictype_impl.go b/ecore/egenerictype_impl.go
index c84a450..cdcc65a 100644
--- a/ecore/egenerictype_impl.go
+++ b/ecore/egenerictype_impl.go
@@ -42,7 +42,8 @@ func newEGenericTypeImpl() *EGenericTypeImpl {
 
 func (e *EGenericTypeImpl) Initialize() {
 	e.CompactEObjectContainer.Initialize()
-
+	// created now, not when they are first read: an element may be read by several threads
+	e.GetETypeArguments()
 }
 
 func (e *EGenericTypeImpl) asEGenericType() EGenericType {
diff --git a/ecore/emodelelement_impl.go b/ecore/emodelelement_impl.go
index fbcb0ee..5b9623c 100644
--- a/ecore/emodelelement_impl.go
+++ b/ecore/emodelelement_impl.go
@@ -30,7 +30,8 @@ func newEModelElementImpl() *EModelElementImpl {
 
 func (e *EModelElementImpl) Initialize() {
 	e.CompactEObjectContainer.Initialize()
-
+	// created now, not when they are first read: an element may be read by several threads
+	e.GetEAnnotations()
 }
 
 func (e *EModelElementImpl) asEModelElement() EModelElement {
diff --git a/ecore/eoperation_ext.go b/ecore/eoperation_ext.go
index 2a4ccf5..5eec35b 100644
--- a/ecore/eoperation_ext.go
+++ b/ecore/eoperation_ext.go
@@ -9,9 +9,12 @@
 
 package ecore
 
+import "sync"
+
 // EOperationExt is the extension of the model object 'EOperation'
 type EOperationExt struct {
 	EOperationImpl
+	operationIDMutex sync.Mutex
 }
 
 func newEOperationExt() *EOperationExt {
@@ -21,6 +24,24 @@ func newEOperationExt() *EOperationExt {
 	return eOperation
 }
 
+// GetOperationID get the value of operationID
+func (eOperation *EOperationExt) GetOperationID() int {
+	eOperation.operationIDMutex.Lock()
+	defer eOperation.operationIDMutex.Unlock()
+	return eOperation.operationID
+}
+
+// SetOperationID set the value of operationID
+func (eOperation *EOperationExt) SetOperationID(newOperationID int) {
+	eOperation.operationIDMutex.Lock()
+	oldOperationID := eOperation.operationID
+	eOperation.operationID = newOperationID
+	eOperation.operationIDMutex.Unlock()
+	if eOperation.ENotificationRequired() {
+		eOperation.ENotify(NewNotificationByFeatureID(eOperation.AsEObject(), SET, EOPERATION__OPERATION_ID, oldOperationID, newOperationID, NO_INDEX))
+	}
+}
+
 func (eOperation *EOperationExt) IsOverrideOf(otherOperation EOperation) bool {
 	otherContainingClass := otherOperation.GetEContainingClass()
 	if otherContainingClass != nil && otherContainingClass.IsSuperTypeOf(eOperation.GetEContainingClass()) && otherOperation.GetName() == eOperation.GetName() {
diff --git a/ecore/eoperation_impl.go b/ecore/eoperation_impl.go
index 2003ee3..0e5b1a9 100644
--- a/ecore/eoperation_impl.go
+++ b/ecore/eoperation_impl.go
@@ -34,7 +34,9 @@ func newEOperationImpl() *EOperationImpl {
 func (e *EOperationImpl) Initialize() {
 	e.ETypedElementExt.Initialize()
 	e.operationID = -1
-
+	// created now, not when they are first read: an element may be read by several threads
+	e.GetEExceptions()
+	e.GetEParameters()
 }
 
 func (e *EOperationImpl) asEOperation() EOperation {
diff --git a/ecore/epackage_impl.go b/ecore/epackage_impl.go
index 61e2f0a..ac07286 100644
--- a/ecore/epackage_impl.go
+++ b/ecore/epackage_impl.go
@@ -41,7 +41,9 @@ func (e *EPackageImpl) Initialize() {
 	e.ENamedElementImpl.Initialize()
 	e.nsPrefix = ""
 	e.nsURI = ""
-
+	// created now, not when they are first read: an element may be read by several threads
+	e.GetEClassifiers()
+	e.GetESubPackages()
 }
 
 func (e *EPackageImpl) asEPackage() EPackage {
diff --git a/ecore/epackageregistry.go b/ecore/epackageregistry.go
index fedfbb1..70bcd05 100644
--- a/ecore/epackageregistry.go
+++ b/ecore/epackageregistry.go
@@ -9,6 +9,8 @@
 
 package ecore
 
+import "sync"
+
 type EPackageRegistry interface {
 	PutPackage(nsURI string, pack EPackage)
 	PutSupplier(nsURI string, supplier func() EPackage)
@@ -22,11 +24,12 @@ type EPackageRegistry interface {
 }
 
 var packageRegistryInstance EPackageRegistry
+var packageRegistryOnce sync.Once
 
 func GetPackageRegistry() EPackageRegistry {
-	if packageRegistryInstance == nil {
+	packageRegistryOnce.Do(func() {
 		packageRegistryInstance = NewEPackageRegistryImpl()
 		packageRegistryInstance.RegisterPackage(GetPackage())
-	}
+	})
 	return packageRegistryInstance
 }
diff --git a/ecore/ereference_impl.go b/ecore/ereference_impl.go
index a5c0aaa..736f31f 100644
--- a/ecore/ereference_impl.go
+++ b/ecore/ereference_impl.go
@@ -40,7 +40,8 @@ func (e *EReferenceImpl) Initialize() {
 	e.EStructuralFeatureExt.Initialize()
 	e.isContainment = false
 	e.isResolveProxies = true
-
+	// created now, not when they are first read: an element may be read by several threads
+	e.GetEKeys()
 }
 
 func (e *EReferenceImpl) asEReference() EReference {
diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index 02fc874..b4a156b 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -179,6 +179,14 @@ func NewEResourceImpl() *EResourceImpl {
 	return r
 }
 
+func (r *EResourceImpl) Initialize() {
+	r.ENotifierImpl.Initialize()
+	// created now, not when they are first read: a resource may be read by several threads
+	r.GetContents()
+	r.GetErrors()
+	r.GetWarnings()
+}
+
 func (r *EResourceImpl) AsEResource() EResource {
 	return r.GetInterfaces().(EResource)
 }
diff --git a/ecore/eresourceset_impl.go b/ecore/eresourceset_impl.go
index 74636ce..c6dc273 100644
--- a/ecore/eresourceset_impl.go
+++ b/ecore/eresourceset_impl.go
@@ -1,5 +1,7 @@
 package ecore
 
+import "sync"
+
 type resourcesList struct {
 	BasicENotifyingList
 	resourceSet *EResourceSetImpl
@@ -44,6 +46,7 @@ type EResourceSetImpl struct {
 	uriResourceMap        map[*URI]EResource
 	resourceCodecRegistry ECodecRegistry
 	packageRegistry       EPackageRegistry
+	mutex                 sync.Mutex // of the converter and of the registries
 }
 
 func NewEResourceSetImpl() *EResourceSetImpl {
@@ -147,6 +150,8 @@ func (r *EResourceSetImpl) GetEObject(uri *URI, loadOnDemand bool) EObject {
 }
 
 func (r *EResourceSetImpl) GetURIConverter() EURIConverter {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	if r.uriConverter == nil {
 		r.uriConverter = NewEURIConverterImpl()
 	}
@@ -154,10 +159,14 @@ func (r *EResourceSetImpl) GetURIConverter() EURIConverter {
 }
 
 func (r *EResourceSetImpl) SetURIConverter(uriConverter EURIConverter) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	r.uriConverter = uriConverter
 }
 
 func (r *EResourceSetImpl) GetPackageRegistry() EPackageRegistry {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	if r.packageRegistry == nil {
 		r.packageRegistry = NewEPackageRegistryImplWithDelegate(GetPackageRegistry())
 	}
@@ -165,10 +174,14 @@ func (r *EResourceSetImpl) GetPackageRegistry() EPackageRegistry {
 }
 
 func (r *EResourceSetImpl) SetPackageRegistry(packageRegistry EPackageRegistry) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	r.packageRegistry = packageRegistry
 }
 
 func (r *EResourceSetImpl) GetCodecRegistry() ECodecRegistry {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	if r.resourceCodecRegistry == nil {
 		r.resourceCodecRegistry = NewECodecRegistryImplWithDelegate(GetCodecRegistry())
 	}
@@ -176,6 +189,8 @@ func (r *EResourceSetImpl) GetCodecRegistry() ECodecRegistry {
 }
 
 func (r *EResourceSetImpl) SetCodecRegistry(resourceCodecRegistry ECodecRegistry) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	r.resourceCodecRegistry = resourceCodecRegistry
 }
 
diff --git a/ecore/estructuralfeature_ext.go b/ecore/estructuralfeature_ext.go
index 0b14782..0831be0 100644
--- a/ecore/estructuralfeature_ext.go
+++ b/ecore/estructuralfeature_ext.go
@@ -9,12 +9,16 @@
 
 package ecore
 
+import "sync"
+
 // EStructuralFeatureExt is the extension of the model object 'EStructuralFeature'
 type EStructuralFeatureExt struct {
 	EStructuralFeatureImpl
 	defaultValue        any
 	defaultValueFactory EFactory
 	defaultValueType    EDataType
+	defaultValueMutex   sync.Mutex
+	featureIDMutex      sync.Mutex
 }
 
 func newEStructuralFeatureExt() *EStructuralFeatureExt {
@@ -35,6 +39,8 @@ func (eStructuralFeature *EStructuralFeatureExt) GetDefaultValue() any {
 			return eType.GetDefaultValue()
 		}
 	} else if eDataType, _ := eType.(EDataType); eDataType != nil {
+		eStructuralFeature.defaultValueMutex.Lock()
+		defer eStructuralFeature.defaultValueMutex.Unlock()
 		if ePackage := eType.GetEPackage(); ePackage != nil {
 			if factory := ePackage.GetEFactoryInstance(); factory != eStructuralFeature.defaultValueFactory || eDataType != eStructuralFeature.defaultValueType {
 				if eDataType.IsSerializable() {
@@ -72,11 +78,15 @@ func (eStructuralFeature *EStructuralFeatureExt) SetDefaultValueLiteral(newDefau
 
 // GetFeatureID get the value of featureID
 func (eStructuralFeature *EStructuralFeatureExt) GetFeatureID() int {
+	eStructuralFeature.featureIDMutex.Lock()
+	defer eStructuralFeature.featureIDMutex.Unlock()
 	return eStructuralFeature.featureID
 }
 
 // SetFeatureID set the value of featureID
 func (eStructuralFeature *EStructuralFeatureExt) SetFeatureID(newFeatureID int) {
+	eStructuralFeature.featureIDMutex.Lock()
+	defer eStructuralFeature.featureIDMutex.Unlock()
 	eStructuralFeature.featureID = newFeatureID
 }
 
diff --git a/ecore/etypeparameter_impl.go b/ecore/etypeparameter_impl.go
index b41a7b0..ed50fa2 100644
--- a/ecore/etypeparameter_impl.go
+++ b/ecore/etypeparameter_impl.go
@@ -30,7 +30,8 @@ func newETypeParameterImpl() *ETypeParameterImpl {
 
 func (e *ETypeParameterImpl) Initialize() {
 	e.ENamedElementImpl.Initialize()
-
+	// created now, not when they are first read: an element may be read by several threads
+	e.GetEBounds()
 }
 
 func (e *ETypeParameterImpl) asETypeParameter() ETypeParameter {
diff --git a/ecore/extendedmetadata.go b/ecore/extendedmetadata.go
index 77cde90..2e9ff4e 100644
--- a/ecore/extendedmetadata.go
+++ b/ecore/extendedmetadata.go
@@ -9,12 +9,16 @@
 
 package ecore
 
+import "sync"
+
 const (
 	annotationURI = "http:///org/eclipse/emf/ecore/util/ExtendedMetaData"
 )
 
+// ExtendedMetaData may be used by several threads
 type ExtendedMetaData struct {
 	metaData map[any]any
+	mutex    sync.Mutex
 }
 
 type ENamedElementExtendedMetaData interface {
@@ -55,7 +59,7 @@ func (m *EPackageExtentedMetaDataImpl) getType(name string) EClassifier {
 			nameToClassifierMap := make(map[string]EClassifier)
 			for it := eClassifiers.Iterator(); it.HasNext(); {
 				eClassifier := it.Next().(EClassifier)
-				eClassifierName := m.emd.GetName(eClassifier)
+				eClassifierName := m.emd.getName(eClassifier)
 				nameToClassifierMap[eClassifierName] = eClassifier
 				if eClassifierName == name {
 					eResult = eClassifier
@@ -127,14 +131,24 @@ func (emd *ExtendedMetaData) getEPackageExtentedMetaData(ePackage EPackage) EPac
 }
 
 func (emd *ExtendedMetaData) GetType(ePackage EPackage, name string) EClassifier {
+	emd.mutex.Lock()
+	defer emd.mutex.Unlock()
 	return emd.getEPackageExtentedMetaData(ePackage).getType(name)
 }
 
 func (emd *ExtendedMetaData) GetName(eElement ENamedElement) string {
+	emd.mutex.Lock()
+	defer emd.mutex.Unlock()
+	return emd.getName(eElement)
+}
+
+func (emd *ExtendedMetaData) getName(eElement ENamedElement) string {
 	return emd.getENamedElementExtendedMetaData(eElement).getName()
 }
 
 func (emd *ExtendedMetaData) GetNamespace(eFeature EStructuralFeature) string {
+	emd.mutex.Lock()
+	defer emd.mutex.Unlock()
 	return emd.getEStructuralFeatureExtentedMetaData(eFeature).getNamespace()
 }
 
-- 
2.43.0


From 1fb5b62571b768a0d7838be13bb5e3212e9d923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:07 +0000
Subject: [PATCH 45/65] fix: computing the operations of a class does not
 notify

An adapter of an operation which reads the operations of its class made the class compute them for ever.
---
 ecore/eclass_ext.go     |  7 ++++++-
 ecore/eoperation_ext.go | 12 +++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/ecore/eclass_ext.go b/ecore/eclass_ext.go
index b8929c2..3f05672 100644
--- a/ecore/eclass_ext.go
+++ b/ecore/eclass_ext.go
@@ -398,7 +398,12 @@ func (eClass *EClassExt) initEAllOperations() {
 	for itFeature := eClass.GetEOperations().Iterator(); itFeature.HasNext(); {
 		operation, isOperation := itFeature.Next().(EOperation)
 		if isOperation {
-			operation.SetOperationID(operationID)
+			if o, _ := operation.(interface{ initOperationID(int) int }); o != nil {
+				// without notification : an adapter which reads this view would compute it again
+				o.initOperationID(operationID)
+			} else {
+				operation.SetOperationID(operationID)
+			}
 			operationID++
 			allOperations = append(allOperations, operation)
 		}
diff --git a/ecore/eoperation_ext.go b/ecore/eoperation_ext.go
index 5eec35b..2034925 100644
--- a/ecore/eoperation_ext.go
+++ b/ecore/eoperation_ext.go
@@ -31,12 +31,18 @@ func (eOperation *EOperationExt) GetOperationID() int {
 	return eOperation.operationID
 }
 
-// SetOperationID set the value of operationID
-func (eOperation *EOperationExt) SetOperationID(newOperationID int) {
+// initOperationID set the value of operationID and returns the old one
+func (eOperation *EOperationExt) initOperationID(newOperationID int) int {
 	eOperation.operationIDMutex.Lock()
+	defer eOperation.operationIDMutex.Unlock()
 	oldOperationID := eOperation.operationID
 	eOperation.operationID = newOperationID
-	eOperation.operationIDMutex.Unlock()
+	return oldOperationID
+}
+
+// SetOperationID set the value of operationID
+func (eOperation *EOperationExt) SetOperationID(newOperationID int) {
+	oldOperationID := eOperation.initOperationID(newOperationID)
 	if eOperation.ENotificationRequired() {
 		eOperation.ENotify(NewNotificationByFeatureID(eOperation.AsEObject(), SET, EOPERATION__OPERATION_ID, oldOperationID, newOperationID, NO_INDEX))
 	}
-- 
2.43.0


From f7e5ab586e433915476f0f344ff5590b7532f6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:37 +0000
Subject: [PATCH 46/65] fix: SQL identifiers are escaped and columns of a table
 are unique

---
 ecore/sqlschema.go | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/ecore/sqlschema.go b/ecore/sqlschema.go
index ed07373..4a1b71d 100644
--- a/ecore/sqlschema.go
+++ b/ecore/sqlschema.go
@@ -1,6 +1,7 @@
 package ecore
 
 import (
+	"strconv"
 	"strings"
 	"sync"
 )
@@ -128,12 +129,26 @@ func (t *sqlTable) addColumn(column *sqlColumn) {
 
 func (t *sqlTable) initColumn(column *sqlColumn, index int) {
 	column.table = t
+	// names of columns are not case sensitive and must be different
+	for name, n := column.columnName, 1; t.hasColumn(column, index); n++ {
+		column.columnName = name + "_" + strconv.Itoa(n)
+	}
 	column.index = index
 	if column.primary {
 		t.key = column
 	}
 }
 
+// hasColumn tells if one of the first columns has the name of a column
+func (t *sqlTable) hasColumn(column *sqlColumn, count int) bool {
+	for _, c := range t.columns[:count] {
+		if c != column && strings.EqualFold(c.columnName, column.columnName) {
+			return true
+		}
+	}
+	return false
+}
+
 func (t *sqlTable) createQuery() string {
 	var tableQuery strings.Builder
 	tableQuery.WriteString("CREATE TABLE ")
@@ -177,10 +192,10 @@ func (t *sqlTable) createQuery() string {
 			tableQuery.WriteString("IF NOT EXISTS ")
 		}
 		tableQuery.WriteString("\"idx_")
-		tableQuery.WriteString(t.name)
+		tableQuery.WriteString(strings.ReplaceAll(t.name, "\"", "\"\""))
 		for _, c := range index {
 			tableQuery.WriteString("_")
-			tableQuery.WriteString(c.columnName)
+			tableQuery.WriteString(strings.ReplaceAll(c.columnName, "\"", "\"\""))
 		}
 		tableQuery.WriteString("\" ON ")
 		tableQuery.WriteString(sqlEscapeIdentifier(t.name))
@@ -556,9 +571,22 @@ func isSqliteKeyWord(k string) bool {
 	return false
 }
 
+// isSqlPlainIdentifier tells if an identifier doesn't have to be escaped
+func isSqlPlainIdentifier(id string) bool {
+	for i := 0; i < len(id); i++ {
+		c := id[i]
+		isLetter := c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
+		isDigit := '0' <= c && c <= '9'
+		if !isLetter && (!isDigit || i == 0) {
+			return false
+		}
+	}
+	return len(id) > 0 && !isSqliteKeyWord(id)
+}
+
 func sqlEscapeIdentifier(id string) string {
-	if id[0] == '.' || isSqliteKeyWord(id) {
-		return "\"" + id + "\""
+	if isSqlPlainIdentifier(id) {
+		return id
 	}
-	return id
+	return "\"" + strings.ReplaceAll(id, "\"", "\"\"") + "\""
 }
-- 
2.43.0


From 1d0e3a90c8a68c5cad09770ff4385f31edb9916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:58 +0000
Subject: [PATCH 47/65] fix: SQL encoder and decoder write and read back the
 whole model

---
 ecore/sqldecoder.go |  91 +++++++++++++++++++++++++-----
 ecore/sqlencoder.go | 131 +++++++++++++++++++++++++++++++++++++-------
 2 files changed, 186 insertions(+), 36 deletions(-)

diff --git a/ecore/sqldecoder.go b/ecore/sqldecoder.go
index 5f8a7d2..5d8cf02 100644
--- a/ecore/sqldecoder.go
+++ b/ecore/sqldecoder.go
@@ -5,9 +5,12 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"net/url"
 	"os"
 	"path/filepath"
 	"strconv"
+	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/chebyrash/promise"
@@ -164,7 +167,7 @@ func (d *sqlDecoder) decodeSchema(schemaOptions []sqlSchemaOption) error {
 	// properties
 	properties, err := d.decodeProperties()
 	if err != nil {
-		return nil
+		return err
 	}
 
 	// object id column name
@@ -281,6 +284,7 @@ func (d *sqlDecoder) decodeObject(id int64) (EObject, error) {
 		table := d.schema.objectsTable
 		var classID int64
 		var objectID string
+		var hasObjectID bool
 		columns := []string{"classID"}
 		if d.isObjectID {
 			columns = append(columns, d.objectIDName)
@@ -294,6 +298,7 @@ func (d *sqlDecoder) decodeObject(id int64) (EObject, error) {
 					classID = stmt.ColumnInt64(0)
 					if d.isObjectID {
 						objectID = stmt.ColumnText(1)
+						hasObjectID = stmt.ColumnType(1) != sqlite.TypeNull
 					}
 					return nil
 				},
@@ -318,8 +323,10 @@ func (d *sqlDecoder) decodeObject(id int64) (EObject, error) {
 		if d.objectIDManager != nil {
 			if d.isObjectID {
 				// object id is column id
-				if err := d.objectIDManager.SetID(eObject, objectID); err != nil {
-					return nil, err
+				if hasObjectID {
+					if err := d.objectIDManager.SetID(eObject, objectID); err != nil {
+						return nil, err
+					}
 				}
 			} else if d.objectIDName == table.key.columnName {
 				// object id is sql id
@@ -385,6 +392,23 @@ func (d *sqlDecoder) decodeEnumLiteral(id int64) (EEnumLiteral, error) {
 	return eEnumLiteral, nil
 }
 
+// newSQLProxy creates a proxy for a reference whose type is a class.
+// the class of the referenced object is not known: if the type is abstract, proxy is an instance of one of its sub classes.
+func newSQLProxy(eClass EClass) EObject {
+	ePackage := eClass.GetEPackage()
+	if !eClass.IsAbstract() && !eClass.IsInterface() {
+		return ePackage.GetEFactoryInstance().Create(eClass)
+	}
+	for classifier := range ePackage.GetEClassifiers().All() {
+		if c, _ := classifier.(EClass); c != nil && !c.IsAbstract() && !c.IsInterface() && eClass.IsSuperTypeOf(c) {
+			return ePackage.GetEFactoryInstance().Create(c)
+		}
+	}
+	eObject := NewDynamicEObjectImpl()
+	eObject.SetEClass(eClass)
+	return eObject
+}
+
 func (d *sqlDecoder) decodeFeatureValue(featureData *sqlFeatureSchema, value any) (any, error) {
 	switch featureData.featureKind {
 	case sfkObject, sfkObjectList:
@@ -417,8 +441,7 @@ func (d *sqlDecoder) decodeFeatureValue(featureData *sqlFeatureSchema, value any
 					// create proxy
 					eFeature := featureData.feature
 					eClass := eFeature.GetEType().(EClass)
-					eFactory := eClass.GetEPackage().GetEFactoryInstance()
-					eObject := eFactory.Create(eClass)
+					eObject := newSQLProxy(eClass)
 					eObjectInternal := eObject.(EObjectInternal)
 					eObjectInternal.ESetProxyURI(resolvedURI)
 					return eObject, nil
@@ -537,6 +560,8 @@ func (d *sqlDecoder) decodeFeatureValue(featureData *sqlFeatureSchema, value any
 			return float64(0), nil
 		case float64:
 			return v, nil
+		case string:
+			return strconv.ParseFloat(v, 64)
 		default:
 			return nil, fmt.Errorf("%v is not a float64 value", value)
 		}
@@ -546,6 +571,9 @@ func (d *sqlDecoder) decodeFeatureValue(featureData *sqlFeatureSchema, value any
 			return float32(0), nil
 		case float64:
 			return float32(v), nil
+		case string:
+			f, err := strconv.ParseFloat(v, 32)
+			return float32(f), err
 		default:
 			return nil, fmt.Errorf("%v is not a float64 value", value)
 		}
@@ -577,10 +605,14 @@ type SQLDecoder struct {
 	resource     EResource
 	withFeatures bool
 	withObjects  bool
+	featureMutex sync.Mutex
 }
 
 const SQLITE_MAX_ALLOCATION_SIZE = 2147483391
 
+// identifier of the memory databases
+var memoryDatabaseID atomic.Int64
+
 func newMemoryConnectionPool(dbName string, tmpPath string, r io.Reader) (*sqlitex.Pool, error) {
 	// create a memory connection
 	var connSrc *sqlite.Conn
@@ -592,6 +624,11 @@ func newMemoryConnectionPool(dbName string, tmpPath string, r io.Reader) (*sqlit
 			return nil, err
 		}
 
+		// check that it has a header
+		if len(bytes) < 100 {
+			return nil, errors.New("not a database")
+		}
+
 		// set journal mode as rolling back ( WAL is not supported )
 		bytes[18] = 0x01
 		bytes[19] = 0x01
@@ -629,7 +666,8 @@ func newMemoryConnectionPool(dbName string, tmpPath string, r io.Reader) (*sqlit
 	}
 
 	// create connection pool
-	dbPath := fmt.Sprintf("file:%s?mode=memory&cache=shared", dbName)
+	// memory databases with the same name are shared: name is unique
+	dbPath := fmt.Sprintf("file:%s-%d?mode=memory&cache=shared", url.PathEscape(dbName), memoryDatabaseID.Add(1))
 	connPool, err := sqlitex.NewPool(dbPath, sqlitex.PoolOptions{Flags: sqlite.OpenCreate | sqlite.OpenReadWrite | sqlite.OpenURI})
 	if err != nil {
 		return nil, err
@@ -983,10 +1021,12 @@ func (d *SQLDecoder) decodeObjects() error {
 				// set its id
 				if d.objectIDManager != nil {
 					if d.isObjectID {
-						switch stmt.ColumnType(2) {
+						// last column, after the ones of the container
+						column := len(d.schema.objectsTable.columns) - 1
+						switch stmt.ColumnType(column) {
 						case sqlite.TypeNull:
 						case sqlite.TypeText:
-							objectID := stmt.ColumnText(2)
+							objectID := stmt.ColumnText(column)
 							if err := d.objectIDManager.SetID(eObject, objectID); err != nil {
 								return err
 							}
@@ -1061,6 +1101,9 @@ func (d *SQLDecoder) decodeColumnFeatures(table *sqlTable, columnFeatures []*sql
 	if len(columnFeatures) == 0 {
 		return nil
 	}
+	// features may have opposites: only one of them is decoded at a time
+	d.featureMutex.Lock()
+	defer d.featureMutex.Unlock()
 	return d.executeQuery(
 		table.selectQuery(nil, "", ""),
 		&sqlitex.ExecOptions{
@@ -1072,14 +1115,16 @@ func (d *SQLDecoder) decodeColumnFeatures(table *sqlTable, columnFeatures []*sql
 				}
 
 				// for each column
-				for i, columnData := range columnFeatures {
-					value := decodeAny(stmt, i+1)
+				for _, columnData := range columnFeatures {
+					value := decodeAny(stmt, columnData.column.index)
+					if value == nil {
+						// feature is not set
+						continue
+					}
 					columnValue, err := d.decodeFeatureValue(columnData, value)
 					if err != nil {
 						return err
 					}
-					// column value is nil, if column is not set
-					// so use default value
 					if columnValue != nil {
 						eObject.ESet(columnData.feature, columnValue)
 					}
@@ -1090,11 +1135,13 @@ func (d *SQLDecoder) decodeColumnFeatures(table *sqlTable, columnFeatures []*sql
 }
 
 func (d *SQLDecoder) decodeTableFeature(table *sqlTable, tableFeature *sqlFeatureSchema) error {
-	column := sqlEscapeIdentifier(table.columns[len(table.columns)-1].columnName)
-	query := table.selectQuery([]string{table.keyName(), column}, "", table.keyName()+" ASC, idx ASC")
+	column := table.columns[len(table.columns)-1].columnName
+	query := table.selectQuery([]string{table.key.columnName, column}, "", table.keyName()+" ASC, idx ASC")
 	feature := tableFeature.feature
 	values := []any{}
 	var id int64 = -1
+	d.featureMutex.Lock()
+	defer d.featureMutex.Unlock()
 	if err := d.executeQuery(
 		query,
 		&sqlitex.ExecOptions{
@@ -1139,7 +1186,21 @@ func (d *SQLDecoder) decodeFeatureList(objectID int64, feature EStructuralFeatur
 		return fmt.Errorf("unable to find object with id '%v'", objectID)
 	}
 	eList := eObject.EGetResolve(feature, false).(EList)
-	eList.AddAll(NewImmutableEList(values))
+	if eReference, _ := feature.(EReference); eReference != nil && eReference.GetEOpposite() != nil {
+		// some of the elements may already be in the list, because of their opposite reference
+		if unResolvedList, _ := eList.(EObjectList); unResolvedList != nil {
+			eList = unResolvedList.GetUnResolvedList()
+		}
+		for i, value := range values {
+			if index := eList.IndexOf(value); index == -1 {
+				eList.Insert(min(i, eList.Size()), value)
+			} else if i < eList.Size() && i != index {
+				eList.Move(index, i)
+			}
+		}
+	} else {
+		eList.AddAll(NewImmutableEList(values))
+	}
 	return nil
 }
 
diff --git a/ecore/sqlencoder.go b/ecore/sqlencoder.go
index 5634fdf..824954b 100644
--- a/ecore/sqlencoder.go
+++ b/ecore/sqlencoder.go
@@ -187,6 +187,9 @@ type sqlEncoder struct {
 	sqlObjectManager sqlObjectManager
 	sqlLockManager   *sqlEncoderLockManager
 	encoderLogger    *zap.Logger
+	// resource which is encoded and references to its objects which were not yet encoded, nil if there is none
+	resource   EResource
+	references []func() error
 }
 
 func (e *sqlEncoder) setLogger(logger *zap.Logger) {
@@ -323,7 +326,11 @@ func (e *sqlEncoder) encodeObject(eObject EObject, sqlContainerID int64, contain
 		// object id is serialized only if we have an id manager and
 		// a corresponding column in objects table
 		if e.isObjectID {
-			args = append(args, fmt.Sprintf("%v", e.objectIDManager.GetID(eObject)))
+			if objectID := e.objectIDManager.GetID(eObject); objectID != nil {
+				args = append(args, fmt.Sprintf("%v", objectID))
+			} else {
+				args = append(args, nil)
+			}
 		}
 
 		// query
@@ -368,6 +375,18 @@ func (e *sqlEncoder) encodeObject(eObject EObject, sqlContainerID int64, contain
 				if !featureData.isTransient && e.shouldEncodeFeature(eObject, eFeature) {
 					if featureColumn := featureData.schema.column; featureColumn != nil {
 						featureValue := eObject.EGetResolve(eFeature, false)
+						if e.isForwardReference(featureData, featureValue) {
+							query := "UPDATE " + sqlEscapeIdentifier(classTable.name) +
+								" SET " + sqlEscapeIdentifier(featureColumn.columnName) + "=? WHERE " + classTable.keyName() + "=?"
+							e.references = append(e.references, func() error {
+								columnValue, err := e.encodeFeatureValue(sqlObjectID, featureData, featureValue)
+								if err != nil {
+									return err
+								}
+								return e.executeQuery(query, &sqlitex.ExecOptions{Args: []any{columnValue, sqlObjectID}})
+							})
+							continue
+						}
 						columnValue, err := e.encodeFeatureValue(sqlObjectID, featureData, featureValue)
 						if err != nil {
 							return -1, err
@@ -380,9 +399,25 @@ func (e *sqlEncoder) encodeObject(eObject EObject, sqlContainerID int64, contain
 						if featureList == nil {
 							return -1, errors.New("feature value is not a list")
 						}
+						if objectList, _ := featureList.(EObjectList); objectList != nil {
+							// proxies are not resolved
+							featureList = objectList.GetUnResolvedList()
+						}
 						// for each list element, insert its value
 						index := 1.0
 						for value := range featureList.All() {
+							if e.isForwardReference(featureData, value) {
+								position := index
+								e.references = append(e.references, func() error {
+									converted, err := e.encodeFeatureValue(sqlObjectID, featureData, value)
+									if err != nil {
+										return err
+									}
+									return e.executeQuery(featureTable.insertQuery(), &sqlitex.ExecOptions{Args: []any{sqlObjectID, position, converted}})
+								})
+								index++
+								continue
+							}
 							converted, err := e.encodeFeatureValue(sqlObjectID, featureData, value)
 							if err != nil {
 								return -1, err
@@ -417,6 +452,22 @@ func (e *sqlEncoder) encodeObject(eObject EObject, sqlContainerID int64, contain
 	return sqlObjectID, nil
 }
 
+// isForwardReference tells if a value is a reference to an object of the resource which is not yet encoded:
+// it is encoded when all the objects of the resource have an identifier.
+func (e *sqlEncoder) isForwardReference(featureData *sqlEncoderFeatureData, value any) bool {
+	if e.resource == nil {
+		return false
+	}
+	switch featureData.schema.featureKind {
+	case sfkObjectReference, sfkObjectReferenceList:
+		if eObject, _ := value.(EObject); eObject != nil && !eObject.EIsProxy() && eObject.EResource() == e.resource {
+			_, isEncoded := e.sqlIDManager.GetObjectID(eObject)
+			return !isEncoded
+		}
+	}
+	return false
+}
+
 func (e *sqlEncoder) encodeFeatureValue(containerID int64, featureData *sqlEncoderFeatureData, value any) (encoded any, err error) {
 	if value != nil {
 		switch featureData.schema.featureKind {
@@ -441,11 +492,17 @@ func (e *sqlEncoder) encodeFeatureValue(containerID int64, featureData *sqlEncod
 				return nil, fmt.Errorf("unable to find enum literal in enmu '%s' with value '%v'", eEnum.GetName(), literal)
 			}
 			return e.encodeEnumLiteral(eEnumLiteral)
-		case sfkBool, sfkByte, sfkInt, sfkInt16, sfkInt32, sfkInt64, sfkString, sfkByteArray, sfkFloat32, sfkFloat64:
+		case sfkFloat32, sfkFloat64:
+			// not a number is not supported by sqlite
+			if value != value {
+				return "NaN", nil
+			}
+			return value, nil
+		case sfkBool, sfkByte, sfkInt, sfkInt16, sfkInt32, sfkInt64, sfkString, sfkByteArray:
 			return value, nil
 		case sfkDate:
 			t := value.(*time.Time)
-			return t.Format(time.RFC3339), nil
+			return t.Format(time.RFC3339Nano), nil
 		case sfkData, sfkDataList:
 			return featureData.factory.ConvertToString(featureData.dataType, value), nil
 		}
@@ -681,7 +738,6 @@ func (e *sqlEncoder) encodePackage(ePackage EPackage) (int64, error) {
 
 type SQLEncoder struct {
 	sqlEncoder
-	resource EResource
 }
 
 func NewSQLWriterEncoder(w io.Writer, resource EResource, options map[string]any) *SQLEncoder {
@@ -692,7 +748,9 @@ func NewSQLWriterEncoder(w io.Writer, resource EResource, options map[string]any
 	if inMemoryDatabase {
 		return newSQLEncoder(
 			func() (*sqlitex.Pool, error) {
-				return sqlitex.NewPool("file::memory:?mode=memory&cache=shared", sqlitex.PoolOptions{Flags: sqlite.OpenReadWrite | sqlite.OpenCreate | sqlite.OpenURI})
+				// memory databases with the same name are shared: name is unique
+				dbPath := fmt.Sprintf("file:encoder-%d?mode=memory&cache=shared", memoryDatabaseID.Add(1))
+				return sqlitex.NewPool(dbPath, sqlitex.PoolOptions{Flags: sqlite.OpenReadWrite | sqlite.OpenCreate | sqlite.OpenURI})
 			},
 			func(connPool *sqlitex.Pool) (err error) {
 				// close pool
@@ -749,8 +807,17 @@ func NewSQLWriterEncoder(w io.Writer, resource EResource, options map[string]any
 				)
 			},
 			func(connPool *sqlitex.Pool) error {
-				// close db
-				if err := connPool.Close(); err != nil {
+				// remove db file from fs
+				defer func() {
+					_ = os.Remove(dbPath)
+				}()
+
+				// write all the transactions in the db file and close db
+				err := checkpointDB(connPool)
+				if closeErr := connPool.Close(); err == nil {
+					err = closeErr
+				}
+				if err != nil {
 					return err
 				}
 
@@ -769,16 +836,7 @@ func NewSQLWriterEncoder(w io.Writer, resource EResource, options map[string]any
 				}
 
 				// close db file
-				if err := dbFile.Close(); err != nil {
-					return err
-				}
-
-				// remove it from fs
-				if err := os.Remove(dbPath); err != nil {
-					return err
-				}
-
-				return nil
+				return dbFile.Close()
 			},
 			resource,
 			options,
@@ -786,6 +844,28 @@ func NewSQLWriterEncoder(w io.Writer, resource EResource, options map[string]any
 	}
 }
 
+// checkpointDB writes the content of the write ahead log in the database file.
+func checkpointDB(connPool *sqlitex.Pool) error {
+	conn, err := connPool.Take(context.Background())
+	if err != nil {
+		return err
+	}
+	defer connPool.Put(conn)
+	busy := false
+	if err := sqlitex.ExecuteTransient(conn, "PRAGMA wal_checkpoint(TRUNCATE)", &sqlitex.ExecOptions{
+		ResultFunc: func(stmt *sqlite.Stmt) error {
+			busy = stmt.ColumnInt64(0) != 0
+			return nil
+		},
+	}); err != nil {
+		return err
+	}
+	if busy {
+		return errors.New("unable to write all the transactions in the database file")
+	}
+	return nil
+}
+
 func NewSQLDBEncoder(connPool *sqlitex.Pool, resource EResource, options map[string]any) *SQLEncoder {
 	return newSQLEncoder(
 		func() (*sqlitex.Pool, error) { return connPool, nil },
@@ -856,8 +936,8 @@ func newSQLEncoder(connectionPoolProvider func() (*sqlitex.Pool, error), connect
 			sqlIDManager:     sqlIDManager,
 			sqlObjectManager: newSqlEncoderObjectManager(),
 			sqlLockManager:   newSqlEncoderLockManager(),
+			resource:         resource,
 		},
-		resource: resource,
 	}
 	e.setLogger(logger)
 	return e
@@ -893,9 +973,18 @@ func (e *SQLEncoder) EncodeResource() {
 	}
 
 	// encode contents into db
-	if contents := e.resource.GetContents(); !contents.Empty() {
-		object := contents.Get(0).(EObject)
-		if err := e.encodeContent(object); err != nil {
+	for object := range e.resource.GetContents().All() {
+		if err := e.encodeContent(object.(EObject)); err != nil {
+			e.addError(err)
+			return
+		}
+	}
+
+	// encode references to objects which were encoded after them
+	references := e.references
+	e.references = nil
+	for _, encodeReference := range references {
+		if err := encodeReference(); err != nil {
 			e.addError(err)
 			return
 		}
-- 
2.43.0


From 0c2997bb0725b08bc17e76e4914ee4c9507dc8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:56 +0000
Subject: [PATCH 48/65] fix: SQL references to objects encoded later are
 written as uris and resolved when decoded

---
 ecore/sqldecoder.go | 61 ++++++++++++++++++++++++++++++++++++++++-----
 ecore/sqlencoder.go |  7 +++---
 2 files changed, 59 insertions(+), 9 deletions(-)

diff --git a/ecore/sqldecoder.go b/ecore/sqldecoder.go
index 5d8cf02..096d057 100644
--- a/ecore/sqldecoder.go
+++ b/ecore/sqldecoder.go
@@ -8,6 +8,7 @@ import (
 	"net/url"
 	"os"
 	"path/filepath"
+	"slices"
 	"strconv"
 	"sync"
 	"sync/atomic"
@@ -606,6 +607,8 @@ type SQLDecoder struct {
 	withFeatures bool
 	withObjects  bool
 	featureMutex sync.Mutex
+	// references to objects of the resource by their uri
+	references []func()
 }
 
 const SQLITE_MAX_ALLOCATION_SIZE = 2147483391
@@ -897,6 +900,34 @@ func (d *SQLDecoder) DecodeResource() {
 		d.addError(err)
 		return
 	}
+
+	// all the objects are in the resource: decode references to them
+	references := d.references
+	d.references = nil
+	for _, decodeReference := range references {
+		decodeReference()
+	}
+}
+
+// isResourceProxy tells if a decoded value is a proxy whose uri is the one of an object of the decoded resource
+func (d *SQLDecoder) isResourceProxy(featureData *sqlFeatureSchema, value any) bool {
+	switch featureData.featureKind {
+	case sfkObjectReference, sfkObjectReferenceList:
+		if eObject, _ := value.(EObjectInternal); eObject != nil {
+			if proxyURI := eObject.EProxyURI(); proxyURI != nil {
+				return proxyURI.Fragment() != "" && proxyURI.TrimFragment().Equals(d.resource.GetURI())
+			}
+		}
+	}
+	return false
+}
+
+// resolveResourceProxy returns the object of the resource a proxy refers to, the proxy itself if there is none
+func (d *SQLDecoder) resolveResourceProxy(value any) any {
+	if eObject := d.resource.GetEObject(value.(EObjectInternal).EProxyURI().Fragment()); eObject != nil {
+		return eObject
+	}
+	return value
 }
 
 func (d *SQLDecoder) DecodeObject() (EObject, error) {
@@ -1125,7 +1156,11 @@ func (d *SQLDecoder) decodeColumnFeatures(table *sqlTable, columnFeatures []*sql
 					if err != nil {
 						return err
 					}
-					if columnValue != nil {
+					if d.isResourceProxy(columnData, columnValue) {
+						d.references = append(d.references, func() {
+							eObject.ESet(columnData.feature, d.resolveResourceProxy(columnValue))
+						})
+					} else if columnValue != nil {
 						eObject.ESet(columnData.feature, columnValue)
 					}
 				}
@@ -1137,7 +1172,6 @@ func (d *SQLDecoder) decodeColumnFeatures(table *sqlTable, columnFeatures []*sql
 func (d *SQLDecoder) decodeTableFeature(table *sqlTable, tableFeature *sqlFeatureSchema) error {
 	column := table.columns[len(table.columns)-1].columnName
 	query := table.selectQuery([]string{table.key.columnName, column}, "", table.keyName()+" ASC, idx ASC")
-	feature := tableFeature.feature
 	values := []any{}
 	var id int64 = -1
 	d.featureMutex.Lock()
@@ -1157,7 +1191,7 @@ func (d *SQLDecoder) decodeTableFeature(table *sqlTable, tableFeature *sqlFeatur
 				if id == -1 {
 					id = objectID
 				} else if id != objectID {
-					if err := d.decodeFeatureList(id, feature, values); err != nil {
+					if err := d.decodeFeatureList(id, tableFeature, values); err != nil {
 						return err
 					}
 					values = nil
@@ -1170,14 +1204,14 @@ func (d *SQLDecoder) decodeTableFeature(table *sqlTable, tableFeature *sqlFeatur
 		return err
 	}
 	if id != -1 {
-		if err := d.decodeFeatureList(id, feature, values); err != nil {
+		if err := d.decodeFeatureList(id, tableFeature, values); err != nil {
 			return err
 		}
 	}
 	return nil
 }
 
-func (d *SQLDecoder) decodeFeatureList(objectID int64, feature EStructuralFeature, values []any) error {
+func (d *SQLDecoder) decodeFeatureList(objectID int64, featureData *sqlFeatureSchema, values []any) error {
 	if len(values) == 0 {
 		return nil
 	}
@@ -1185,6 +1219,22 @@ func (d *SQLDecoder) decodeFeatureList(objectID int64, feature EStructuralFeatur
 	if eObject == nil {
 		return fmt.Errorf("unable to find object with id '%v'", objectID)
 	}
+	if slices.ContainsFunc(values, func(value any) bool { return d.isResourceProxy(featureData, value) }) {
+		d.references = append(d.references, func() {
+			for i, value := range values {
+				if d.isResourceProxy(featureData, value) {
+					values[i] = d.resolveResourceProxy(value)
+				}
+			}
+			d.setFeatureList(eObject, featureData.feature, values)
+		})
+	} else {
+		d.setFeatureList(eObject, featureData.feature, values)
+	}
+	return nil
+}
+
+func (d *SQLDecoder) setFeatureList(eObject EObject, feature EStructuralFeature, values []any) {
 	eList := eObject.EGetResolve(feature, false).(EList)
 	if eReference, _ := feature.(EReference); eReference != nil && eReference.GetEOpposite() != nil {
 		// some of the elements may already be in the list, because of their opposite reference
@@ -1201,7 +1251,6 @@ func (d *SQLDecoder) decodeFeatureList(objectID int64, feature EStructuralFeatur
 	} else {
 		eList.AddAll(NewImmutableEList(values))
 	}
-	return nil
 }
 
 func (d *SQLDecoder) addError(err error) {
diff --git a/ecore/sqlencoder.go b/ecore/sqlencoder.go
index 824954b..5a454c9 100644
--- a/ecore/sqlencoder.go
+++ b/ecore/sqlencoder.go
@@ -452,10 +452,11 @@ func (e *sqlEncoder) encodeObject(eObject EObject, sqlContainerID int64, contain
 	return sqlObjectID, nil
 }
 
-// isForwardReference tells if a value is a reference to an object of the resource which is not yet encoded:
-// it is encoded when all the objects of the resource have an identifier.
+// isForwardReference tells if a value is a reference to an object of the resource which is not yet encoded and
+// whose uri is made of an id which is not encoded:
+// the reference is encoded when all the objects of the resource have an identifier.
 func (e *sqlEncoder) isForwardReference(featureData *sqlEncoderFeatureData, value any) bool {
-	if e.resource == nil {
+	if e.resource == nil || e.objectIDManager == nil || e.isObjectID {
 		return false
 	}
 	switch featureData.schema.featureKind {
-- 
2.43.0


From 36f68f95fbfca41e4f49a3b5dcf57912ea87b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:42 +0000
Subject: [PATCH 49/65] fix: SQL query is always unregistered and does not fail
 because of a previous one

---
 ecore/sqlbase.go | 85 ++++++++++++++++++++++++------------------------
 1 file changed, 43 insertions(+), 42 deletions(-)

diff --git a/ecore/sqlbase.go b/ecore/sqlbase.go
index 7647ac1..3476b7e 100644
--- a/ecore/sqlbase.go
+++ b/ecore/sqlbase.go
@@ -2,7 +2,7 @@ package ecore
 
 import (
 	"context"
-	"errors"
+	"fmt"
 	"io"
 	"slices"
 	"strings"
@@ -184,40 +184,14 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 					zap.Int64s("previous", mapSet(previous, func(query *query) int64 { return query.id })),
 				)
 			}
-			promises := mapSet(previous, func(query *query) *promise.Promise[any] { return query.promise })
-			if _, err := promise.AllWithPool(context.Background(), s.promisePool, promises...).Await(context.Background()); err != nil {
-				if e := s.sqliteLogger.Check(zap.DebugLevel, "error in previous query"); e != nil {
-					e.Write(
-						zap.Int64("id", q.id),
-						zap.Int64("goid", goid),
-						zap.Error(err),
-					)
-				}
-				reject(err)
-				return
+			// queries are independent : errors are handled by the one which executes the query
+			for query := range previous {
+				_, _ = query.promise.Await(context.Background())
 			}
 		}
 
 		// execute query
-		conn, err := s.connPool.Take(context.Background())
-		if err != nil {
-			reject(err)
-			return
-		}
-		defer s.connPool.Put(conn)
-
-		loggerArgs := []zap.Field{zap.Int64("id", q.id), zap.Int64("goid", goid), zap.String("query", cmd)}
-		if opts != nil {
-			loggerArgs = append(loggerArgs, zap.Any("args", opts.Args))
-		}
-		s.logger.Log(zap.DebugLevel, "executing", loggerArgs...)
-		if err := fn(conn, cmd, opts); err != nil {
-			s.logger.Error("executed", append(loggerArgs, zap.Error(err))...)
-			reject(err)
-			return
-		} else {
-			s.logger.Log(zap.DebugLevel, "executed", loggerArgs...)
-		}
+		err := s.executeSqliteQuery(fn, q, opts)
 
 		// clean query
 		if e := s.sqliteLogger.Check(zap.DebugLevel, "cleaning"); e != nil {
@@ -231,16 +205,7 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 
 		// unregister query from all tables
 		for _, table := range q.tables {
-			queries := s.sqliteQueries[table]
-			index := slices.Index(queries, q)
-			if index == -1 {
-				reject(errors.New("unable to find query index"))
-				return
-			}
-			// remove query from queries
-			copy(queries[index:], queries[index+1:])
-			queries[len(queries)-1] = nil
-			queries = queries[:len(queries)-1]
+			queries := slices.DeleteFunc(s.sqliteQueries[table], func(other *query) bool { return other == q })
 			if len(queries) > 0 {
 				s.sqliteQueries[table] = queries
 			} else {
@@ -256,7 +221,12 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 		if len(s.sqliteQueries) == 0 {
 			s.sqliteLogger.Debug("no pending")
 		}
-		resolve(nil)
+
+		if err != nil {
+			reject(err)
+		} else {
+			resolve(nil)
+		}
 	}, s.promisePool)
 
 	s.sqliteMutex.Unlock()
@@ -266,6 +236,37 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 	return err
 }
 
+// execute query with a connection of the pool
+func (s *sqlBase) executeSqliteQuery(fn executeQueryFn, q *query, opts *sqlitex.ExecOptions) (err error) {
+	loggerArgs := []zap.Field{zap.Int64("id", q.id), zap.Int64("goid", goid.Get()), zap.String("query", q.cmd)}
+	if opts != nil {
+		loggerArgs = append(loggerArgs, zap.Any("args", opts.Args))
+	}
+
+	// handle panic
+	defer func() {
+		if v := recover(); v != nil {
+			err = fmt.Errorf("panic in query '%s': %v", q.cmd, v)
+		}
+		if err != nil {
+			s.logger.Error("executed", append(loggerArgs, zap.Error(err))...)
+		}
+	}()
+
+	conn, err := s.connPool.Take(context.Background())
+	if err != nil {
+		return err
+	}
+	defer s.connPool.Put(conn)
+
+	s.logger.Log(zap.DebugLevel, "executing", loggerArgs...)
+	if err := fn(conn, q.cmd, opts); err != nil {
+		return err
+	}
+	s.logger.Log(zap.DebugLevel, "executed", loggerArgs...)
+	return nil
+}
+
 func (d *sqlBase) executeQuery(query string, opts *sqlitex.ExecOptions) error {
 	return d.executeSqlite(sqlitex.Execute, query, opts)
 }
-- 
2.43.0


From a91af1fcd95d68c32be521232f17657a1504db05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 50/65] fix: SQL container of an object is the one which
 contains it

---
 ecore/sqlencoder.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ecore/sqlencoder.go b/ecore/sqlencoder.go
index 5a454c9..f3b1a57 100644
--- a/ecore/sqlencoder.go
+++ b/ecore/sqlencoder.go
@@ -23,6 +23,7 @@ import (
 type sqlEncoderFeatureData struct {
 	schema      *sqlFeatureSchema
 	featureID   int64
+	isContained bool
 	dataType    EDataType
 	factory     EFactory
 	isTransient bool
@@ -359,6 +360,7 @@ func (e *sqlEncoder) encodeObject(eObject EObject, sqlContainerID int64, contain
 		}
 
 		// for all object hierarchy classes
+		objectClass := eClass
 		for _, eClass := range classData.hierarchy {
 			classData, err := e.getEncoderClassData(eClass)
 			if err != nil {
@@ -372,6 +374,12 @@ func (e *sqlEncoder) encodeObject(eObject EObject, sqlContainerID int64, contain
 			for itFeature := classData.features.Iterator(); itFeature.Next(); {
 				eFeature := itFeature.Key()
 				featureData := itFeature.Value()
+				if eClass != objectClass && featureData.isContained {
+					// inherited feature : its identifier is the one in the class of the object
+					inheritedData := *featureData
+					inheritedData.featureID = int64(objectClass.GetFeatureID(eFeature))
+					featureData = &inheritedData
+				}
 				if !featureData.isTransient && e.shouldEncodeFeature(eObject, eFeature) {
 					if featureColumn := featureData.schema.column; featureColumn != nil {
 						featureValue := eObject.EGetResolve(eFeature, false)
@@ -474,6 +482,19 @@ func (e *sqlEncoder) encodeFeatureValue(containerID int64, featureData *sqlEncod
 		switch featureData.schema.featureKind {
 		case sfkObject, sfkObjectList:
 			eObject := value.(EObject)
+			if !featureData.isContained {
+				return e.encodeObject(eObject, -1, -1)
+			}
+			if sqlObjectID, isSqlObjectID := e.sqlIDManager.GetObjectID(eObject); isSqlObjectID && e.isContainerID {
+				// object was encoded because of a reference to it
+				if err := e.executeQuery(
+					`UPDATE ".objects" SET containerID=?,containerFeatureID=? WHERE objectID=?`,
+					&sqlitex.ExecOptions{Args: []any{containerID, featureData.featureID, sqlObjectID}},
+				); err != nil {
+					return nil, err
+				}
+				return sqlObjectID, nil
+			}
 			return e.encodeObject(eObject, containerID, featureData.featureID)
 		case sfkObjectReference, sfkObjectReferenceList:
 			eObject := value.(EObject)
@@ -680,6 +701,7 @@ func (e *sqlEncoder) getEncoderClassData(eClass EClass) (*sqlEncoderClassData, e
 				featureID: int64(eClass.GetFeatureID(eFeature)),
 			}
 			if eReference, _ := eFeature.(EReference); eReference != nil {
+				featureData.isContained = eReference.IsContainment()
 				featureData.isTransient = eReference.IsTransient() || (eReference.IsContainer() && !eReference.IsResolveProxies())
 			} else if eAttribute, _ := eFeature.(EAttribute); eAttribute != nil {
 				eDataType := eAttribute.GetEAttributeType()
-- 
2.43.0


From c511da82e884c7b2cc1ce0d9a236528750d0feb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:12 +0000
Subject: [PATCH 51/65] fix: SQL store orders its operations and keeps the
 values of all the features

---
 ecore/sqlstore.go | 706 +++++++++++++++++++++++++++-------------------
 1 file changed, 419 insertions(+), 287 deletions(-)

diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index d24f07c..8fc4e74 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -97,6 +97,7 @@ type sqlManyQueries struct {
 	idxToListIndex   string
 	listIndexToIdx   string
 	removeQuery      string
+	renumberQuery    string
 	insertQuery      string
 }
 
@@ -297,6 +298,23 @@ func (ss *sqlManyQueries) getListIndexToIdxQuery() string {
 	return ss.listIndexToIdx
 }
 
+func (ss *sqlManyQueries) getRenumberQuery() string {
+	if len(ss.renumberQuery) == 0 {
+		var query strings.Builder
+		query.WriteString("UPDATE ")
+		query.WriteString(sqlEscapeIdentifier(ss.table.name))
+		query.WriteString(" SET idx=renumbered.idx FROM (SELECT rowid AS id, ROW_NUMBER() OVER (ORDER BY idx ASC) AS idx FROM ")
+		query.WriteString(sqlEscapeIdentifier(ss.table.name))
+		query.WriteString(" WHERE ")
+		query.WriteString(ss.table.keyName())
+		query.WriteString("=?) AS renumbered WHERE ")
+		query.WriteString(sqlEscapeIdentifier(ss.table.name))
+		query.WriteString(".rowid=renumbered.id")
+		ss.renumberQuery = query.String()
+	}
+	return ss.renumberQuery
+}
+
 func (ss *sqlManyQueries) getRemoveQuery() string {
 	if len(ss.removeQuery) == 0 {
 		column := ss.table.columns[len(ss.table.columns)-1]
@@ -362,15 +380,43 @@ func newSQLStoreIDManager() SQLStoreIDManager {
 }
 
 func (r *sqlStoreIDManagerImpl) SetPackageID(p EPackage, id int64) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	r.sqlDecoderIDManagerImpl.packages[id] = p
 	r.sqlEncoderIDManagerImpl.packages[p] = id
 }
 
+func (r *sqlStoreIDManagerImpl) GetPackageID(p EPackage) (id int64, b bool) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	return r.sqlEncoderIDManagerImpl.GetPackageID(p)
+}
+
+func (r *sqlStoreIDManagerImpl) GetPackageFromID(id int64) (p EPackage, b bool) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	return r.sqlDecoderIDManagerImpl.GetPackageFromID(id)
+}
+
 func (r *sqlStoreIDManagerImpl) SetClassID(c EClass, id int64) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	r.sqlDecoderIDManagerImpl.classes[id] = c
 	r.sqlEncoderIDManagerImpl.classes[c] = id
 }
 
+func (r *sqlStoreIDManagerImpl) GetClassID(c EClass) (id int64, b bool) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	return r.sqlEncoderIDManagerImpl.GetClassID(c)
+}
+
+func (r *sqlStoreIDManagerImpl) GetClassFromID(id int64) (c EClass, b bool) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	return r.sqlDecoderIDManagerImpl.GetClassFromID(id)
+}
+
 func (r *sqlStoreIDManagerImpl) GetObjectFromID(id int64) (o EObject, b bool) {
 	r.mutex.Lock()
 	defer r.mutex.Unlock()
@@ -418,10 +464,24 @@ func (r *sqlStoreIDManagerImpl) ClearObjectID(o EObject) {
 }
 
 func (r *sqlStoreIDManagerImpl) SetEnumLiteralID(e EEnumLiteral, id int64) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	r.sqlDecoderIDManagerImpl.enumLiterals[id] = e
 	r.sqlEncoderIDManagerImpl.enumLiterals[e] = id
 }
 
+func (r *sqlStoreIDManagerImpl) GetEnumLiteralID(e EEnumLiteral) (id int64, b bool) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	return r.sqlEncoderIDManagerImpl.GetEnumLiteralID(e)
+}
+
+func (r *sqlStoreIDManagerImpl) GetEnumLiteralFromID(id int64) (e EEnumLiteral, b bool) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	return r.sqlDecoderIDManagerImpl.GetEnumLiteralFromID(id)
+}
+
 var operationID atomic.Int64
 
 type operationType uint8
@@ -448,6 +508,7 @@ type operation struct {
 	object   EObject
 	feature  EStructuralFeature
 	contents bool
+	isValue  bool // value is the one of the feature after the operation
 	index    int
 	value    any
 	fn       func() (any, error)
@@ -469,6 +530,7 @@ func newOperation(
 		id:       operationID.Add(1),
 		type_:    type_,
 		cmd:      cmd,
+		isValue:  cmd == "Set" || cmd == "UnSet",
 		object:   object,
 		feature:  feature,
 		contents: contents,
@@ -602,7 +664,7 @@ type SQLStore struct {
 	chanOperations   *infiniteChannel[*operation]
 	mutexOperations  sync.Mutex
 	timeoutOperation time.Duration
-	goroutines       map[int64]map[EObject]struct{}
+	goroutines       map[int64]struct{}
 	mutexGoRoutines  sync.Mutex
 	maxAllocSize     int64
 }
@@ -812,7 +874,7 @@ func newSQLStore(
 		objectOperations: map[EObject]map[EStructuralFeature][]*operation{},
 		chanOperations:   newInfiniteChannel[*operation](),
 		timeoutOperation: timeoutOperation,
-		goroutines:       map[int64]map[EObject]struct{}{},
+		goroutines:       map[int64]struct{}{},
 		maxAllocSize:     int64(maxAllocSize),
 	}
 
@@ -866,6 +928,12 @@ func (s *SQLStore) getSingleQueries(column *sqlColumn) *sqlSingleQueries {
 		stmts = &sqlSingleQueries{
 			column: column,
 		}
+		// queries are shared : compute them now
+		if column.table.key != nil {
+			stmts.getUpdateQuery()
+			stmts.getSelectQuery()
+		}
+		stmts.getRemoveQuery()
 		s.singleQueries[column] = stmts
 	}
 	s.mutexQueries.Unlock()
@@ -879,6 +947,22 @@ func (s *SQLStore) getManyQueries(table *sqlTable) *sqlManyQueries {
 		stmts = &sqlManyQueries{
 			table: table,
 		}
+		// queries are shared : compute them now
+		stmts.getInsertQuery()
+		stmts.getUpdateValueQuery()
+		stmts.getUpdateIdxQuery()
+		stmts.getSelectOneQuery()
+		stmts.getSelectAllQuery()
+		stmts.getExistsQuery()
+		stmts.getClearQuery()
+		stmts.getCountQuery()
+		stmts.getContainsQuery()
+		stmts.getIndexOfQuery()
+		stmts.getLastIndexOfQuery()
+		stmts.getIdxToListIndexQuery()
+		stmts.getListIndexToIdxQuery()
+		stmts.getRenumberQuery()
+		stmts.getRemoveQuery()
 		s.manyQueries[table] = stmts
 	}
 	s.mutexQueries.Unlock()
@@ -886,14 +970,13 @@ func (s *SQLStore) getManyQueries(table *sqlTable) *sqlManyQueries {
 }
 
 func (s *SQLStore) getFeatureSchema(object EObject, feature EStructuralFeature) (*sqlFeatureSchema, error) {
-	// retrieve class schema
+	// retrieve feature schema
 	class := object.EClass()
-	classSchema := s.sqlDecoder.schema.getClassSchema(class)
-	if classSchema == nil {
-		return nil, fmt.Errorf("class %s is unknown", class.GetName())
+	featureSchema := s.sqlDecoder.schema.getClassSchema(class).getFeatureSchema(feature)
+	if featureSchema == nil && class.GetFeatureID(feature) != -1 {
+		// feature is inherited : it is in the schema of its class
+		featureSchema = s.sqlDecoder.schema.getClassSchema(feature.GetEContainingClass()).getFeatureSchema(feature)
 	}
-	// retrieve feature schema
-	featureSchema := classSchema.getFeatureSchema(feature)
 	if featureSchema == nil {
 		return nil, fmt.Errorf("feature %s is unknown", feature.GetName())
 	}
@@ -920,6 +1003,14 @@ func (s *SQLStore) getEncoderFeatureData(object EObject, feature EStructuralFeat
 
 	// retrieve feature data
 	featureData, isFeatureData := classData.features.Get(feature)
+	if !isFeatureData && class.GetFeatureID(feature) != -1 {
+		// feature is inherited : it is in the data of its class
+		classData, err := s.getEncoderClassData(feature.GetEContainingClass())
+		if err != nil {
+			return nil, err
+		}
+		featureData, isFeatureData = classData.features.Get(feature)
+	}
 	if !isFeatureData {
 		return nil, fmt.Errorf("feature %s is unknown", feature.GetName())
 	}
@@ -940,6 +1031,19 @@ func (e *SQLStore) encodeFeatureValue(sqlObjectID int64, featureData *sqlEncoder
 	return nil, nil
 }
 
+// encodeSearchedValue encodes a value which is searched in a list : an object which is not in the store is not added to it
+func (s *SQLStore) encodeSearchedValue(sqlObjectID int64, featureData *sqlEncoderFeatureData, value any) (any, bool, error) {
+	if eObject, _ := value.(EObject); eObject != nil {
+		switch featureData.schema.featureKind {
+		case sfkObject, sfkObjectList:
+			sqlID, isSQLID, err := s.getSQLID(eObject)
+			return sqlID, isSQLID, err
+		}
+	}
+	encoded, err := s.encodeFeatureValue(sqlObjectID, featureData, value)
+	return encoded, err == nil, err
+}
+
 func (s *SQLStore) getSQLID(eObject EObject) (int64, bool, error) {
 	// retrieve sql id for eObject
 	sqlObjectID, isSqlObjectID := s.sqlIDManager.GetObjectID(eObject)
@@ -1038,44 +1142,43 @@ type objectFeature struct {
 	feature EStructuralFeature
 }
 
-// of is {nil,nil} : return store object-feature iterator
-// of is {object,nil} : return object object-feature iterator
-// of is {object,feature} : return object-feature iterator
-func (s *SQLStore) objectFeaturesIterator(of objectFeature) iter.Seq[objectFeature] {
-	return func(yield func(objectFeature) bool) {
-		if of.object == nil {
-			if !yield(objectFeature{nil, nil}) {
-				return
+// previousOperations computes the operations an operation has to wait for:
+// those which write, or all of them if the operation writes, in the features which are in conflict with of.
+// of is {nil,nil} : all the store
+// of is {object,nil} : all the features of the object
+// of is {object,feature} : the feature of the object
+func (s *SQLStore) previousOperations(of objectFeature, op *operation, previous map[*operation]struct{}) {
+	addOperations := func(operations []*operation) {
+		// operations before a write operation are already waited by this operation
+		for i := len(operations) - 1; i >= 0; i-- {
+			operation := operations[i]
+			if operation == op {
+				continue
 			}
-			for object, objectOperations := range s.objectOperations {
-				if object != nil {
-					if !yield(objectFeature{object, nil}) {
-						return
-					}
-					for feature := range objectOperations {
-						if feature != nil {
-							if !yield(objectFeature{object, feature}) {
-								return
-							}
-						}
-					}
-				}
+			isWrite := operation.type_ == operationWrite
+			if isWrite || op.type_ == operationWrite {
+				previous[operation] = struct{}{}
 			}
-		} else if of.feature == nil {
-			if !yield(objectFeature{of.object, nil}) {
-				return
+			if isWrite {
+				break
 			}
-			for feature := range s.objectOperations[of.object] {
-				if feature != nil {
-					if !yield(objectFeature{of.object, feature}) {
-						return
-					}
-				}
+		}
+	}
+	if of.object == nil {
+		for _, objectOperations := range s.objectOperations {
+			for _, operations := range objectOperations {
+				addOperations(operations)
 			}
-		} else {
-			if !yield(objectFeature{of.object, of.feature}) {
-				return
+		}
+	} else {
+		addOperations(s.objectOperations[nil][nil])
+		if of.feature == nil {
+			for _, operations := range s.objectOperations[of.object] {
+				addOperations(operations)
 			}
+		} else {
+			addOperations(s.objectOperations[of.object][nil])
+			addOperations(s.objectOperations[of.object][of.feature])
 		}
 	}
 }
@@ -1101,10 +1204,12 @@ func (s *SQLStore) unlockOperation() {
 						logging = logging[1:]
 						if _, isLogged := logged[op]; !isLogged {
 							logged[op] = struct{}{}
+							s.mutexOperations.Lock()
 							e.Write(zap.Object("operation", &operationMarshaler{op: op, withPrevious: true}))
 							for previous := range maps.Keys(op.previous) {
 								logging = append(logging, previous)
 							}
+							s.mutexOperations.Unlock()
 						}
 					}
 				}
@@ -1115,35 +1220,75 @@ func (s *SQLStore) unlockOperation() {
 	}
 }
 
+// operationObjects returns the objects of the value of an operation.
+// an object which is not in the store is added with its contents.
+func (s *SQLStore) operationObjects(op *operation) []EObject {
+	objects := []EObject{}
+	addObject := func(value any) {
+		object, _ := value.(EObject)
+		if object == nil {
+			return
+		}
+		objects = append(objects, object)
+		if internal, _ := object.(interface{ AsEObjectInternal() EObjectInternal }); internal != nil && op.type_ == operationWrite {
+			if _, isObjectID := s.sqlIDManager.GetObjectID(object); !isObjectID {
+				for it := object.EAllContents(); it.HasNext(); {
+					objects = append(objects, it.Next().(EObject))
+				}
+			}
+		}
+	}
+	if values, _ := op.value.([]any); values != nil {
+		for _, value := range values {
+			addObject(value)
+		}
+	} else {
+		addObject(op.value)
+	}
+	return objects
+}
+
 // schedule operation in the store
-// s.objectOperations[nil][nil] all operations
-// s.objectOperations[object][nil] all operations for object
-// s.objectOperations[object][feature] all operations for object-feature
+// s.objectOperations[nil][nil] operations for the whole store
+// s.objectOperations[object][nil] operations for the whole object
+// s.objectOperations[object][feature] operations for object-feature
 func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operation {
 	if e := s.loggerOperations.Check(zap.DebugLevel, "schedule"); e != nil {
 		e.Write(zap.Int64("goid", goid.Get()), zap.Object("operation", &operationMarshaler{op: op}))
 	}
 
+	// an operation which is scheduled by another one is a part of it : execute it in the current goroutine,
+	// otherwise they wait for each other
+	goroutineID := goid.Get()
+	s.mutexGoRoutines.Lock()
+	_, isNested := s.goroutines[goroutineID]
+	s.mutexGoRoutines.Unlock()
+	if isNested {
+		result, err := s.executeOperation(ctx, op)
+		op.promise = promise.NewWithPool(func(resolve func(any), reject func(error)) {
+			if err != nil {
+				reject(err)
+			} else {
+				resolve(result)
+			}
+		}, s.promisePool)
+		return op
+	}
+
 	// create cancelable context
 	ctx, cancel := context.WithCancel(ctx)
 
 	// input objects features = { object feature operations [, value all operations] }
 	allObjectFeatures := []objectFeature{{op.object, op.feature}}
-	allObjects := map[EObject]struct{}{}
-	if op.object != nil {
-		allObjects[op.object] = struct{}{}
-		if op.contents {
-			for it := op.object.EAllContents(); it.HasNext(); {
-				object := it.Next().(EObject)
-				allObjectFeatures = append(allObjectFeatures, objectFeature{object, nil})
-				allObjects[object] = struct{}{}
-			}
+	if op.object != nil && op.contents {
+		for it := op.object.EAllContents(); it.HasNext(); {
+			allObjectFeatures = append(allObjectFeatures, objectFeature{it.Next().(EObject), nil})
 		}
-
 	}
-	if object, isObject := op.value.(EObject); isObject && object != op.object {
-		allObjects[object] = struct{}{}
-		allObjectFeatures = append(allObjectFeatures, objectFeature{object, nil})
+	for _, object := range s.operationObjects(op) {
+		if object != op.object {
+			allObjectFeatures = append(allObjectFeatures, objectFeature{object, nil})
+		}
 	}
 
 	// lock operations
@@ -1151,14 +1296,9 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 
 	// register operation for all objects and and compute previous operations to wait for
 	previous := map[*operation]struct{}{}
-	registeredObjectFeatures := []objectFeature{}
-	for _, lof := range allObjectFeatures {
-		for of := range s.objectFeaturesIterator(lof) {
-			registeredObjectFeatures = append(registeredObjectFeatures, of)
-			if po := s.registerOperation(of.object, of.feature, op); po != nil {
-				previous[po] = struct{}{}
-			}
-		}
+	for _, of := range allObjectFeatures {
+		s.previousOperations(of, op, previous)
+		s.registerOperation(of.object, of.feature, op)
 	}
 
 	// initialize op
@@ -1166,73 +1306,18 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 	op.previous = previous
 	op.promise = promise.NewWithPool(func(resolve func(any), reject func(error)) {
 		goid := goid.Get()
-		// handle error
-		handleError := func(err error) {
-			if err != ctx.Err() {
-				s.logger.Error("error",
-					zap.Object("operation", &operationMarshaler{op: op}),
-					zap.Error(err))
-			}
-			reject(err)
-		}
-		// handle panic
-		handlePanic := func() {
-			var err error
-			switch recover := recover(); v := recover.(type) {
-			case nil:
-				return
-			case error:
-				err = v
-			default:
-				err = fmt.Errorf("%+v", v)
-			}
-			s.logger.Error("error",
-				zap.Object("operation", &operationMarshaler{op: op}),
-				zap.Error(err),
-				zap.Stack("stack"))
-			reject(err)
-		}
-		defer handlePanic()
 
-		// associate all objets to this goroutine
+		// associate operation to this goroutine
 		s.mutexGoRoutines.Lock()
-		s.goroutines[goid] = allObjects
+		s.goroutines[goid] = struct{}{}
 		s.mutexGoRoutines.Unlock()
-		defer func() {
-			s.mutexGoRoutines.Lock()
-			delete(s.goroutines, goid)
-			s.mutexGoRoutines.Unlock()
-		}()
-
-		// wait for previous operations
-		if len(op.previous) > 0 {
-			if e := s.loggerOperations.Check(zap.DebugLevel, "waiting previous operations"); e != nil {
-				e.Write(
-					zap.Int64("goid", goid),
-					zap.Int64("id", op.id),
-					zap.Int64s("previous", mapSet(op.previous, func(o *operation) int64 { return o.id })),
-				)
-			}
-			promises := mapSet(op.previous, func(o *operation) *promise.Promise[any] { return o.promise })
-			if _, err := promise.AllWithPool(ctx, s.promisePool, promises...).Await(ctx); err != nil && err != ctx.Err() {
-				// unwrap error
-				if unwrapped := errors.Unwrap(err); unwrapped != nil {
-					err = unwrapped
-				}
-				// handle error
-				handleError(fmt.Errorf("error in previous operation: %w", err))
-				return
-			}
-		}
 
 		// execute operation
-		if e := s.loggerOperations.Check(zap.DebugLevel, "execute"); e != nil {
-			e.Write(
-				zap.Int64("goid", goid),
-				zap.Int64("id", op.id),
-			)
-		}
-		result, err := op.fn()
+		result, err := s.executeOperation(ctx, op)
+
+		s.mutexGoRoutines.Lock()
+		delete(s.goroutines, goid)
+		s.mutexGoRoutines.Unlock()
 
 		// clean operations
 		if e := s.loggerOperations.Check(zap.DebugLevel, "cleaning"); e != nil {
@@ -1244,12 +1329,12 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 		s.mutexOperations.Lock()
 		defer s.mutexOperations.Unlock()
 
-		for _, of := range registeredObjectFeatures {
-			if err := s.unregisterOperation(of.object, of.feature, op); err != nil {
-				handleError(err)
-				return
-			}
+		for _, of := range allObjectFeatures {
+			s.unregisterOperation(of.object, of.feature, op)
 		}
+		// do not keep previous operations in memory
+		op.previous = nil
+
 		if e := s.loggerOperations.Check(zap.DebugLevel, "cleaned"); e != nil {
 			e.Write(
 				zap.Int64("goid", goid),
@@ -1263,7 +1348,7 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 
 		// result or error
 		if err != nil {
-			handleError(err)
+			reject(err)
 		} else {
 			resolve(result)
 		}
@@ -1274,22 +1359,88 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 	return op
 }
 
-func (s *SQLStore) getLastOperation(type_ operationType, object EObject, feature EStructuralFeature, index int) *operation {
+// executeOperation waits for the previous operations and executes the operation.
+func (s *SQLStore) executeOperation(ctx context.Context, op *operation) (result any, err error) {
+	goid := goid.Get()
+
+	// handle panic & error
+	defer func() {
+		var stack zap.Field
+		switch v := recover().(type) {
+		case nil:
+			stack = zap.Skip()
+		case error:
+			stack = zap.Stack("stack")
+			err = v
+		default:
+			stack = zap.Stack("stack")
+			err = fmt.Errorf("%+v", v)
+		}
+		if err != nil && err != ctx.Err() {
+			s.logger.Error("error",
+				zap.Object("operation", &operationMarshaler{op: op}),
+				zap.Error(err),
+				stack)
+		}
+	}()
+
+	// wait for previous operations
+	if len(op.previous) > 0 {
+		if e := s.loggerOperations.Check(zap.DebugLevel, "waiting previous operations"); e != nil {
+			e.Write(
+				zap.Int64("goid", goid),
+				zap.Int64("id", op.id),
+				zap.Int64s("previous", mapSet(op.previous, func(o *operation) int64 { return o.id })),
+			)
+		}
+		// all of them must be finished
+		var previousErr error
+		for previous := range op.previous {
+			if _, err := previous.promise.Await(ctx); err != nil && ctx.Err() == nil {
+				previousErr = err
+			}
+		}
+		if previousErr != nil {
+			// unwrap error
+			if unwrapped := errors.Unwrap(previousErr); unwrapped != nil {
+				previousErr = unwrapped
+			}
+			return nil, fmt.Errorf("error in previous operation: %w", previousErr)
+		}
+	}
+
+	// execute operation
+	if e := s.loggerOperations.Check(zap.DebugLevel, "execute"); e != nil {
+		e.Write(
+			zap.Int64("goid", goid),
+			zap.Int64("id", op.id),
+		)
+	}
+	return op.fn()
+}
+
+// getPendingOperation returns the operation which sets or unsets the feature of the object
+// if it is the last one which is not yet finished
+func (s *SQLStore) getPendingOperation(object EObject, feature EStructuralFeature) *operation {
 	s.mutexOperations.Lock()
 	defer s.mutexOperations.Unlock()
-	if objectOperations := s.objectOperations[object]; objectOperations != nil {
-		if operations := objectOperations[feature]; operations != nil {
-			for i := len(operations) - 1; i >= 0; i-- {
-				if operation := operations[i]; operation.type_ == type_ && operation.index == index {
-					return operation
-				}
+	// operations on the whole object or on the whole store
+	if len(s.objectOperations[nil][nil]) > 0 || len(s.objectOperations[object][nil]) > 0 {
+		return nil
+	}
+	operations := s.objectOperations[object][feature]
+	for i := len(operations) - 1; i >= 0; i-- {
+		if operation := operations[i]; operation.type_ == operationWrite {
+			if operation.isValue && operation.object == object {
+				return operation
 			}
+			return nil
 		}
 	}
 	return nil
 }
 
-func (s *SQLStore) registerOperation(object EObject, feature EStructuralFeature, op *operation) (previous *operation) {
+func (s *SQLStore) registerOperation(object EObject, feature EStructuralFeature, op *operation) {
 	// get operations for object-feature
 	objectOperations := s.objectOperations[object]
 	if objectOperations == nil {
@@ -1302,39 +1453,13 @@ func (s *SQLStore) registerOperation(object EObject, feature EStructuralFeature,
 		objectOperations[feature] = operations
 	}
 
-	// compute previous operation
-	switch op.type_ {
-	case operationRead:
-		for i := len(operations) - 1; i >= 0; i-- {
-			operation := operations[i]
-			if operation.type_ == operationWrite {
-				previous = operation
-				break
-			}
-		}
-	case operationWrite:
-		if len(operations) > 0 {
-			previous = operations[len(operations)-1]
-		}
-	}
-
 	// add operation
 	objectOperations[feature] = append(operations, op)
-	return
 }
 
-func (s *SQLStore) unregisterOperation(object EObject, feature EStructuralFeature, op *operation) error {
+func (s *SQLStore) unregisterOperation(object EObject, feature EStructuralFeature, op *operation) {
 	objectOperations := s.objectOperations[object]
-	operations := objectOperations[feature]
-	// retrieve operation index
-	index := slices.Index(operations, op)
-	if index == -1 {
-		return errors.New("unable to find task index")
-	}
-	// remove operation from collection
-	copy(operations[index:], operations[index+1:])
-	operations[len(operations)-1] = nil
-	operations = operations[:len(operations)-1]
+	operations := slices.DeleteFunc(objectOperations[feature], func(o *operation) bool { return o == op })
 	// set object operations for feature
 	if len(operations) == 0 {
 		delete(objectOperations, feature)
@@ -1345,7 +1470,6 @@ func (s *SQLStore) unregisterOperation(object EObject, feature EStructuralFeatur
 	} else {
 		objectOperations[feature] = operations
 	}
-	return nil
 }
 
 // w8 for the result of the operation
@@ -1363,7 +1487,7 @@ func awaitOperation[T any](ctx context.Context, op *operation) T {
 func (s *SQLStore) Get(object EObject, feature EStructuralFeature, index int) any {
 	// optimization : if we have a non many feature, check if we have a pending write operation
 	if !feature.IsMany() {
-		if operation := s.getLastOperation(operationWrite, object, feature, index); operation != nil {
+		if operation := s.getPendingOperation(object, feature); operation != nil {
 			return operation.value
 		}
 	}
@@ -1386,7 +1510,7 @@ func (s *SQLStore) doGet(object EObject, feature EStructuralFeature, index int)
 	}
 	featureSchema, err := s.getFeatureSchema(object, feature)
 	if err != nil {
-		return err, nil
+		return nil, err
 	}
 	return s.getValue(sqlObjectID, featureSchema, index)
 }
@@ -1411,9 +1535,12 @@ func (s *SQLStore) getValue(sqlID int64, featureSchema *sqlFeatureSchema, index
 				value = decodeAny(stmt, 0)
 				return nil
 			}}); err != nil {
-		return err, nil
+		return nil, err
+	}
+	if value == nil && featureSchema.column != nil {
+		// not set
+		return featureSchema.feature.GetDefaultValue(), nil
 	}
-
 	return s.decodeFeatureValue(featureSchema, value)
 }
 
@@ -1475,7 +1602,7 @@ func (s *SQLStore) doSet(object EObject, feature EStructuralFeature, index int,
 func (s *SQLStore) IsSet(object EObject, feature EStructuralFeature) bool {
 	// optimization : if we have a non many feature, check if we have a pending write operation
 	if !feature.IsMany() {
-		if operation := s.getLastOperation(operationWrite, object, feature, -1); operation != nil {
+		if operation := s.getPendingOperation(object, feature); operation != nil {
 			return operation.value != nil
 		}
 	}
@@ -1511,7 +1638,7 @@ func (s *SQLStore) doIsSet(object EObject, feature EStructuralFeature) (bool, er
 				}}); err != nil {
 			return false, err
 		}
-		return value != featureSchema.feature.GetDefaultValue(), nil
+		return value != nil, nil
 	} else if featureTable := featureSchema.table; featureTable != nil {
 		isSet := false
 		if err := s.executeQuery(
@@ -1554,7 +1681,7 @@ func (s *SQLStore) doUnSet(object EObject, feature EStructuralFeature) (any, err
 	var args []any
 	if featureColumn := featureData.schema.column; featureColumn != nil {
 		query = s.getSingleQueries(featureColumn).getUpdateQuery()
-		args = []any{feature.GetDefaultValue(), sqlObjectID}
+		args = []any{nil, sqlObjectID}
 	} else if featureTable := featureData.schema.table; featureTable != nil {
 		query = s.getManyQueries(featureTable).getClearQuery()
 		args = []any{sqlObjectID}
@@ -1663,8 +1790,8 @@ func (s *SQLStore) doContains(object EObject, feature EStructuralFeature, value
 	}
 
 	// query statement
-	encoded, err := s.encodeFeatureValue(sqlObjectID, featureData, value)
-	if err != nil {
+	encoded, isEncoded, err := s.encodeSearchedValue(sqlObjectID, featureData, value)
+	if err != nil || !isEncoded {
 		return false, err
 	}
 
@@ -1698,8 +1825,8 @@ func (s *SQLStore) doIndexOf(object EObject, feature EStructuralFeature, value a
 	featureTable := featureData.schema.table
 
 	// compute parameters
-	encoded, err := s.encodeFeatureValue(sqlObjectID, featureData, value)
-	if err != nil {
+	encoded, isEncoded, err := s.encodeSearchedValue(sqlObjectID, featureData, value)
+	if err != nil || !isEncoded {
 		return -1, err
 	}
 	// retrieve row idx in table
@@ -1804,25 +1931,27 @@ func (s *SQLStore) GetRoots() []EObject {
 
 func (s *SQLStore) doGetRoots() ([]EObject, error) {
 	table := s.schema.contentsTable
-	contents := []EObject{}
+	objectIDs := []int64{}
 	if err := s.executeQuery(
 		table.selectQuery(nil, "", ""),
 		&sqlitex.ExecOptions{
 			ResultFunc: func(stmt *sqlite.Stmt) error {
 				// retrieve object id
-				objectID := stmt.ColumnInt64(0)
-				// decode object
-				object, err := s.decodeObject(objectID)
-				if err != nil {
-					return err
-				}
-				// add object to contents
-				contents = append(contents, object)
+				objectIDs = append(objectIDs, stmt.ColumnInt64(0))
 				return nil
 			},
 		}); err != nil {
 		return nil, err
 	}
+	// decode objects
+	contents := []EObject{}
+	for _, objectID := range objectIDs {
+		object, err := s.decodeObject(objectID)
+		if err != nil {
+			return nil, err
+		}
+		contents = append(contents, object)
+	}
 	return contents, nil
 }
 
@@ -1894,14 +2023,19 @@ func (s *SQLStore) doAdd(object EObject, feature EStructuralFeature, index int,
 }
 
 func (s *SQLStore) AddAll(object EObject, feature EStructuralFeature, index int, c Collection) {
+	// operation is executed later : values are the current ones
+	values := []any{}
+	for it := c.Iterator(); it.HasNext(); {
+		values = append(values, it.Next())
+	}
 	s.scheduleOperation(
 		context.Background(),
-		newOperation("AddAll", operationWrite, object, feature, false, index, c, func() (any, error) {
-			return s.doAddAll(object, feature, index, c)
+		newOperation("AddAll", operationWrite, object, feature, false, index, values, func() (any, error) {
+			return s.doAddAll(object, feature, index, values)
 		}))
 }
 
-func (s *SQLStore) doAddAll(object EObject, feature EStructuralFeature, index int, c Collection) (any, error) {
+func (s *SQLStore) doAddAll(object EObject, feature EStructuralFeature, index int, values []any) (any, error) {
 	sqlObjectID, err := s.encodeSQLID(object, -1, -1)
 	if err != nil {
 		return nil, err
@@ -1911,25 +2045,23 @@ func (s *SQLStore) doAddAll(object EObject, feature EStructuralFeature, index in
 		return nil, err
 	}
 	featureTable := featureData.schema.table
-	idx, inc, err := s.getInsertIdx(featureTable, sqlObjectID, index, c.Size())
+	first, increment, err := s.getInsertIdx(featureTable, sqlObjectID, index, len(values))
 	if err != nil {
 		return nil, err
 	}
 	// encode each value
 	query := s.getManyQueries(featureTable).getInsertQuery()
-	for it := c.Iterator(); it.HasNext(); {
-		value := it.Next()
+	for i, value := range values {
 		v, err := s.encodeFeatureValue(sqlObjectID, featureData, value)
 		if err != nil {
 			return nil, err
 		}
 		if err := s.executeQuery(
 			query,
-			&sqlitex.ExecOptions{Args: []any{sqlObjectID, idx, v}},
+			&sqlitex.ExecOptions{Args: []any{sqlObjectID, first + increment*float64(i), v}},
 		); err != nil {
 			return nil, err
 		}
-		idx += inc
 	}
 	return nil, nil
 }
@@ -1937,51 +2069,59 @@ func (s *SQLStore) doAddAll(object EObject, feature EStructuralFeature, index in
 // compute insert idx of element in the list whose index is index. nb is the number of elements to be inserted
 // return idx, increment (for each inserted element) and error if any
 func (s *SQLStore) getInsertIdx(table *sqlTable, sqlID int64, index int, nb int) (float64, float64, error) {
-	if index == 0 {
-		// first row in the list
-		idx := 1.0
-		withElements := false
-		if err := s.executeQuery(
-			s.getManyQueries(table).getListIndexToIdxQuery(),
-			&sqlitex.ExecOptions{
-				Args: []any{sqlID, 1, 0},
-				ResultFunc: func(stmt *sqlite.Stmt) error {
-					withElements = true
-					idx = stmt.ColumnFloat(0)
-					return nil
-				}}); err != nil {
-			return 0.0, 0.0, err
-		}
-		if withElements {
-			increment := 1.0 / (float64(nb) + 1)
-			return idx * increment, increment, nil
-		} else {
-			return 1.0, 1.0, nil
-		}
-	} else {
+	for isRenumbered := false; ; isRenumbered = true {
+		// idx of the elements which are before and after
+		var before, after float64
+		var isAfter bool
+		limit, offset := 2, index-1
 		count := 0
-		idx := 0.0
+		if index == 0 {
+			limit, offset = 1, 0
+			count++
+		}
 		if err := s.executeQuery(
 			s.getManyQueries(table).getListIndexToIdxQuery(),
 			&sqlitex.ExecOptions{
-				Args: []any{sqlID, 2, index - 1},
+				Args: []any{sqlID, limit, offset},
 				ResultFunc: func(stmt *sqlite.Stmt) error {
-					idx += stmt.ColumnFloat(0)
+					if count == 0 {
+						before = stmt.ColumnFloat(0)
+					} else {
+						after = stmt.ColumnFloat(0)
+						isAfter = true
+					}
 					count++
 					return nil
 				}}); err != nil {
 			return 0.0, 0.0, err
 		}
-		switch count {
-		case 0:
+		if count == 0 {
 			return 0, 0, fmt.Errorf("invalid index in table %v for object %v : %v not in list bounds", table.name, sqlID, index)
-		case 1:
+		}
+		if !isAfter {
 			// at the end
-			return idx + 1, 1, nil
-		default:
-			// before
-			increment := 1.0 / (float64(nb) + 1)
-			return idx * increment, increment, nil
+			return before + 1, 1, nil
+		}
+		// between : idx of all the elements must be different
+		increment := (after - before) / float64(nb+1)
+		isDifferent := true
+		for i, previous := 0, before; i <= nb && isDifferent; i++ {
+			idx := after
+			if i < nb {
+				idx = before + increment*float64(i+1)
+			}
+			isDifferent = previous < idx
+			previous = idx
+		}
+		if isDifferent || isRenumbered {
+			return before + increment, increment, nil
+		}
+		// there is no more room : renumber elements
+		if err := s.executeQuery(
+			s.getManyQueries(table).getRenumberQuery(),
+			&sqlitex.ExecOptions{Args: []any{sqlID}},
+		); err != nil {
+			return 0.0, 0.0, err
 		}
 	}
 }
@@ -2179,30 +2319,16 @@ func (s *SQLStore) doGetContainer(object EObject) (*containerAndFeature, error)
 			return nil, err
 		}
 
-		containerInternal := container.(EObjectInternal)
-		containerClass := containerInternal.EClass()
-		feature := containerClass.GetEStructuralFeature(containerInternal.EStaticFeatureCount() + int(containerFeatureID))
+		containerClass := container.EClass()
+		feature := containerClass.GetEStructuralFeature(int(containerFeatureID))
 		return &containerAndFeature{container, feature}, nil
 	}
 }
 
 func (s *SQLStore) SetContainer(object EObject, container EObject, feature EStructuralFeature) {
-	// if this method is called from a scheduled operation, execute doSetContainer in the current goroutine
-	// otherwise schedule operation doSetContainer operation
-	goid := goid.Get()
-	sync := false
-	s.mutexGoRoutines.Lock()
-	if objects := s.goroutines[goid]; objects != nil {
-		_, sync = objects[object]
-	}
-	s.mutexGoRoutines.Unlock()
-	if sync {
-		_, _ = s.doSetContainer(object, container, feature)
-	} else {
-		s.scheduleOperation(context.Background(), newOperation("SetContainer", operationWrite, object, feature, false, -1, container, func() (any, error) {
-			return s.doSetContainer(object, container, feature)
-		}))
-	}
+	s.scheduleOperation(context.Background(), newOperation("SetContainer", operationWrite, object, nil, false, -1, container, func() (any, error) {
+		return s.doSetContainer(object, container, feature)
+	}))
 }
 
 func (s *SQLStore) doSetContainer(object EObject, container EObject, feature EStructuralFeature) (any, error) {
@@ -2234,47 +2360,53 @@ func (s *SQLStore) doSetContainer(object EObject, container EObject, feature ESt
 
 func (s *SQLStore) All(object EObject, feature EStructuralFeature) iter.Seq[any] {
 	return func(yield func(any) bool) {
-		awaitOperation[any](
-			context.Background(),
-			s.scheduleOperation(
-				context.Background(),
-				newOperation("All", operationRead, object, feature, false, -1, nil, func() (any, error) {
-					interrupted := errors.New("interrupted")
-					sqlObjectID, isSQLObjectID, err := s.getSQLID(object)
-					if err != nil {
-						return nil, err
-					} else if !isSQLObjectID {
-						return nil, nil
-					}
-					featureSchema, err := s.getFeatureSchema(object, feature)
-					if err != nil {
-						return nil, err
-					}
-					featureTable := featureSchema.table
-					if err := s.executeQuery(
-						s.getManyQueries(featureTable).getSelectAllQuery(),
-						&sqlitex.ExecOptions{
-							Args: []any{sqlObjectID},
-							ResultFunc: func(stmt *sqlite.Stmt) error {
-								value := decodeAny(stmt, 0)
-								decoded, err := s.decodeFeatureValue(featureSchema, value)
-								if err != nil {
-									return err
-								}
-								if !yield(decoded) {
-									return interrupted
-								}
-								return nil
-							}}); err != nil && err != interrupted {
-						return nil, err
-					}
-					return nil, nil
-				})))
+		for _, value := range s.ToArray(object, feature) {
+			if !yield(value) {
+				return
+			}
+		}
 	}
 }
 
 func (s *SQLStore) ToArray(object EObject, feature EStructuralFeature) []any {
-	return slices.Collect(s.All(object, feature))
+	return awaitOperation[[]any](
+		context.Background(),
+		s.scheduleOperation(
+			context.Background(),
+			newOperation("ToArray", operationRead, object, feature, false, -1, nil, func() (any, error) {
+				return s.doToArray(object, feature)
+			})))
+}
+
+func (s *SQLStore) doToArray(object EObject, feature EStructuralFeature) ([]any, error) {
+	sqlObjectID, isSQLObjectID, err := s.getSQLID(object)
+	if err != nil {
+		return nil, err
+	} else if !isSQLObjectID {
+		return nil, nil
+	}
+	featureSchema, err := s.getFeatureSchema(object, feature)
+	if err != nil {
+		return nil, err
+	}
+	// retrieve values and then decode them : decoding needs other queries
+	values := []any{}
+	if err := s.executeQuery(
+		s.getManyQueries(featureSchema.table).getSelectAllQuery(),
+		&sqlitex.ExecOptions{
+			Args: []any{sqlObjectID},
+			ResultFunc: func(stmt *sqlite.Stmt) error {
+				values = append(values, decodeAny(stmt, 0))
+				return nil
+			}}); err != nil {
+		return nil, err
+	}
+	for i, value := range values {
+		if values[i], err = s.decodeFeatureValue(featureSchema, value); err != nil {
+			return nil, err
+		}
+	}
+	return values, nil
 }
 
 func (s *SQLStore) Serialize(ctx context.Context) *promise.Promise[[]byte] {
-- 
2.43.0


From ce45fe6b665efa82a7b9be9dfcc6ae621f1e84fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:38 +0000
Subject: [PATCH 52/65] fix: store object unlocks the lists it has locked and
 does not take a default value for a set one

---
 ecore/estoreeobject_impl.go | 41 ++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/ecore/estoreeobject_impl.go b/ecore/estoreeobject_impl.go
index 2705ebf..3e31a30 100644
--- a/ecore/estoreeobject_impl.go
+++ b/ecore/estoreeobject_impl.go
@@ -10,6 +10,9 @@
 package ecore
 
 import (
+	"reflect"
+	"sync"
+
 	"github.com/SokaDance/rmx"
 )
 
@@ -21,6 +24,7 @@ type EStoreEObjectImpl struct {
 	cache       bool
 	mutex       rmx.RecursiveMutex
 	collections map[int]eStoreCollection // lists and maps which are not in properties
+	locked      [][]sync.Locker          // lists and maps which are locked with the object
 }
 
 // eStoreCollection is a list or a map which delegates to a store
@@ -50,18 +54,33 @@ func (o *EStoreEObjectImpl) AsEStoreEObject() EStoreEObject {
 
 func (o *EStoreEObjectImpl) Lock() {
 	o.mutex.Lock()
+	// lock lists and maps : they may be moved before the unlock
+	var lockers []sync.Locker
+	addLocker := func(v any) {
+		if storeMap, _ := v.(*EStoreMap); storeMap != nil {
+			v = storeMap.EList
+		}
+		if locker, _ := v.(sync.Locker); locker != nil {
+			locker.Lock()
+			lockers = append(lockers, locker)
+		}
+	}
 	for _, v := range o.properties {
-		if storeList, isStoreList := v.(*EStoreList); isStoreList {
-			storeList.Lock()
+		if collection, _ := v.(eStoreCollection); collection != nil {
+			addLocker(collection)
 		}
 	}
+	for _, collection := range o.collections {
+		addLocker(collection)
+	}
+	o.locked = append(o.locked, lockers)
 }
 
 func (o *EStoreEObjectImpl) Unlock() {
-	for _, v := range o.properties {
-		if storeList, isStoreList := v.(*EStoreList); isStoreList {
-			storeList.Unlock()
-		}
+	lockers := o.locked[len(o.locked)-1]
+	o.locked = o.locked[:len(o.locked)-1]
+	for _, locker := range lockers {
+		locker.Unlock()
 	}
 	o.mutex.Unlock()
 }
@@ -256,7 +275,8 @@ func (o *EStoreEObjectImpl) EDynamicGet(dynamicFeatureID int) any {
 			} else if store := o.AsEStoreEObject().GetEStore(); store != nil {
 				// feature is not transient and we have a store
 				result = store.Get(o.AsEObject(), eFeature, NO_INDEX)
-				if o.cache {
+				// a value which is the default one may not be set : only the store knows it
+				if o.cache && !isDefaultValue(eFeature, result) {
 					properties = o.getProperties()
 				}
 			}
@@ -323,3 +343,10 @@ func (o *EStoreEObjectImpl) createMap(eFeature EStructuralFeature) EMap {
 	m.SetCache(o.cache)
 	return m
 }
+
+func isDefaultValue(eFeature EStructuralFeature, value any) bool {
+	if feature, _ := eFeature.(interface{ AsEObjectInternal() EObjectInternal }); feature == nil {
+		return value == nil
+	}
+	return reflect.DeepEqual(value, eFeature.GetDefaultValue())
+}
-- 
2.43.0


From f0b1b467e7f7ec960c8a55a853d05f9ed9cc21f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 53/65] fix: SQL store is used by several goroutines without
 races

---
 ecore/sqldecoder.go |  3 +++
 ecore/sqlencoder.go |  6 +++++-
 ecore/sqlstore.go   | 15 ++++++++-------
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/ecore/sqldecoder.go b/ecore/sqldecoder.go
index 096d057..acdf816 100644
--- a/ecore/sqldecoder.go
+++ b/ecore/sqldecoder.go
@@ -135,6 +135,7 @@ func (r *sqlDecoderObjectManager) registerObject(EObject) {
 type sqlDecoder struct {
 	*sqlBase
 	classDataMap     map[EClass]*sqlDecoderClassData
+	classDataMutex   sync.Mutex
 	packageRegistry  EPackageRegistry
 	sqlIDManager     SQLDecoderIDManager
 	sqlObjectManager sqlObjectManager
@@ -268,6 +269,8 @@ func (d *sqlDecoder) decodeClass(id int64) (*sqlDecoderClassData, error) {
 }
 
 func (d *sqlDecoder) getDecoderClassData(eClass EClass) *sqlDecoderClassData {
+	d.classDataMutex.Lock()
+	defer d.classDataMutex.Unlock()
 	classData, isClassData := d.classDataMap[eClass]
 	if !isClassData {
 		classData = &sqlDecoderClassData{
diff --git a/ecore/sqlencoder.go b/ecore/sqlencoder.go
index f3b1a57..bcce3ca 100644
--- a/ecore/sqlencoder.go
+++ b/ecore/sqlencoder.go
@@ -184,6 +184,7 @@ type sqlEncoder struct {
 	isForced         bool
 	isKeepDefaults   bool
 	classDataMap     map[EClass]*sqlEncoderClassData
+	classDataMutex   sync.RWMutex
 	sqlIDManager     SQLEncoderIDManager
 	sqlObjectManager sqlObjectManager
 	sqlLockManager   *sqlEncoderLockManager
@@ -654,7 +655,9 @@ func (e *sqlEncoder) getEncoderClassData(eClass EClass) (*sqlEncoderClassData, e
 	e.sqlLockManager.lock(eClass)
 	defer e.sqlLockManager.unlock(eClass)
 
+	e.classDataMutex.RLock()
 	classData := e.classDataMap[eClass]
+	e.classDataMutex.RUnlock()
 	if classData == nil {
 		logger.Debug("class data create")
 
@@ -719,8 +722,9 @@ func (e *sqlEncoder) getEncoderClassData(eClass EClass) (*sqlEncoderClassData, e
 			features:  classFeatures,
 			hierarchy: classHierarchy,
 		}
+		e.classDataMutex.Lock()
 		e.classDataMap[eClass] = classData
-
+		e.classDataMutex.Unlock()
 	}
 	return classData, nil
 }
diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index 8fc4e74..4575e5d 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -8,7 +8,6 @@ import (
 	"maps"
 	"math"
 	"os"
-	"path/filepath"
 	"slices"
 	"strings"
 	"sync"
@@ -706,8 +705,8 @@ func NewSQLStore(
 				defer connSrc.Close()
 
 				// create connection pool
-				name := filepath.Base(databasePath)
-				dbPath := fmt.Sprintf("file:%s?mode=memory&cache=shared", name)
+				// memory databases with the same name are shared: name is unique
+				dbPath := fmt.Sprintf("file:store-%d?mode=memory&cache=shared", memoryDatabaseID.Add(1))
 				connPool, err := sqlitex.NewPool(dbPath, sqlitex.PoolOptions{Flags: sqlite.OpenCreate | sqlite.OpenReadWrite | sqlite.OpenURI})
 				if err != nil {
 					return nil, err
@@ -923,6 +922,7 @@ func (s *SQLStore) setLogger(logger *zap.Logger) {
 
 func (s *SQLStore) getSingleQueries(column *sqlColumn) *sqlSingleQueries {
 	s.mutexQueries.Lock()
+	defer s.mutexQueries.Unlock()
 	stmts := s.singleQueries[column]
 	if stmts == nil {
 		stmts = &sqlSingleQueries{
@@ -936,12 +936,12 @@ func (s *SQLStore) getSingleQueries(column *sqlColumn) *sqlSingleQueries {
 		stmts.getRemoveQuery()
 		s.singleQueries[column] = stmts
 	}
-	s.mutexQueries.Unlock()
 	return stmts
 }
 
 func (s *SQLStore) getManyQueries(table *sqlTable) *sqlManyQueries {
 	s.mutexQueries.Lock()
+	defer s.mutexQueries.Unlock()
 	stmts := s.manyQueries[table]
 	if stmts == nil {
 		stmts = &sqlManyQueries{
@@ -965,7 +965,6 @@ func (s *SQLStore) getManyQueries(table *sqlTable) *sqlManyQueries {
 		stmts.getRemoveQuery()
 		s.manyQueries[table] = stmts
 	}
-	s.mutexQueries.Unlock()
 	return stmts
 }
 
@@ -1221,16 +1220,18 @@ func (s *SQLStore) unlockOperation() {
 }
 
 // operationObjects returns the objects of the value of an operation.
-// an object which is not in the store is added with its contents.
+// an object which is not in the store is added with its contents when it gets a container.
 func (s *SQLStore) operationObjects(op *operation) []EObject {
 	objects := []EObject{}
+	eReference, _ := op.feature.(EReference)
+	isContents := op.type_ == operationWrite && eReference != nil && eReference.IsContainment()
 	addObject := func(value any) {
 		object, _ := value.(EObject)
 		if object == nil {
 			return
 		}
 		objects = append(objects, object)
-		if internal, _ := object.(interface{ AsEObjectInternal() EObjectInternal }); internal != nil && op.type_ == operationWrite {
+		if internal, _ := object.(interface{ AsEObjectInternal() EObjectInternal }); internal != nil && isContents {
 			if _, isObjectID := s.sqlIDManager.GetObjectID(object); !isObjectID {
 				for it := object.EAllContents(); it.HasNext(); {
 					objects = append(objects, it.Next().(EObject))
-- 
2.43.0


From 3ca8d32219ac0e8c50e21f66aaf1891947f9ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:28 +0000
Subject: [PATCH 54/65] fix: SQL queries wait for the locks of a memory
 database

---
 ecore/sqlbase.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/ecore/sqlbase.go b/ecore/sqlbase.go
index 3476b7e..4565509 100644
--- a/ecore/sqlbase.go
+++ b/ecore/sqlbase.go
@@ -8,6 +8,7 @@ import (
 	"strings"
 	"sync"
 	"sync/atomic"
+	"time"
 
 	"github.com/chebyrash/promise"
 	"github.com/panjf2000/ants/v2"
@@ -20,6 +21,12 @@ import (
 
 type executeQueryFn func(conn *sqlite.Conn, query string, opts *sqlitex.ExecOptions) error
 
+// time to wait for the locks of a shared cache
+const (
+	unlockQueryTimeout = 10 * time.Second
+	unlockQueryDelay   = time.Millisecond
+)
+
 var queryID atomic.Int64
 
 type queryType uint8
@@ -260,13 +267,37 @@ func (s *sqlBase) executeSqliteQuery(fn executeQueryFn, q *query, opts *sqlitex.
 	defer s.connPool.Put(conn)
 
 	s.logger.Log(zap.DebugLevel, "executing", loggerArgs...)
-	if err := fn(conn, q.cmd, opts); err != nil {
+	if err := executeUnlocked(fn, conn, q.cmd, opts); err != nil {
 		return err
 	}
 	s.logger.Log(zap.DebugLevel, "executed", loggerArgs...)
 	return nil
 }
 
+// execute query, waiting for the locks of the other connections.
+// Contrary to the ones of a database file, connections of a memory database share their cache
+// and sqlite does not wait for the locks of a shared cache.
+func executeUnlocked(fn executeQueryFn, conn *sqlite.Conn, cmd string, opts *sqlitex.ExecOptions) error {
+	hasResult := false
+	if opts != nil && opts.ResultFunc != nil {
+		resultFunc := opts.ResultFunc
+		unlockedOpts := *opts
+		unlockedOpts.ResultFunc = func(stmt *sqlite.Stmt) error {
+			hasResult = true
+			return resultFunc(stmt)
+		}
+		opts = &unlockedOpts
+	}
+	deadline := time.Now().Add(unlockQueryTimeout)
+	for {
+		err := fn(conn, cmd, opts)
+		if hasResult || sqlite.ErrCode(err).ToPrimary() != sqlite.ResultLocked || time.Now().After(deadline) {
+			return err
+		}
+		time.Sleep(unlockQueryDelay)
+	}
+}
+
 func (d *sqlBase) executeQuery(query string, opts *sqlitex.ExecOptions) error {
 	return d.executeSqlite(sqlitex.Execute, query, opts)
 }
-- 
2.43.0


From 299411b4d8a77b9d624b348985db11721cbbc2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 55/65] fix: container of a store object is initialized without
 races

---
 ecore/estoreeobject_impl.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecore/estoreeobject_impl.go b/ecore/estoreeobject_impl.go
index 3e31a30..28ac56c 100644
--- a/ecore/estoreeobject_impl.go
+++ b/ecore/estoreeobject_impl.go
@@ -176,16 +176,22 @@ func (o *EStoreEObjectImpl) IsCache() bool {
 }
 
 func (o *EStoreEObjectImpl) ESetInternalContainer(newContainer EObject, newContainerFeatureID int) {
+	o.mutex.Lock()
+	defer o.mutex.Unlock()
 	o.ReflectiveEObjectImpl.ESetInternalContainer(newContainer, newContainerFeatureID)
 	o.setContainerInStore()
 }
 
 func (o *EStoreEObjectImpl) EInternalContainer() EObject {
+	o.mutex.Lock()
+	defer o.mutex.Unlock()
 	o.initializeContainerFromStore()
 	return o.ReflectiveEObjectImpl.EInternalContainer()
 }
 
 func (o *EStoreEObjectImpl) EInternalContainerFeatureID() int {
+	o.mutex.Lock()
+	defer o.mutex.Unlock()
 	o.initializeContainerFromStore()
 	return o.ReflectiveEObjectImpl.EInternalContainerFeatureID()
 }
-- 
2.43.0


From a3a340d21bfa4238f445dad67ad4b5e55d6907b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:10 +0000
Subject: [PATCH 56/65] fix: compute the fragment of an object without
 resolving the proxies next to it

---
 ecore/abstracteobject.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 90d9ab3..74b2269 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -992,8 +992,14 @@ func (o *AbstractEObject) EURIFragmentSegment(feature EStructuralFeature, object
 	s := "@"
 	s += feature.GetName()
 	if feature.IsMany() {
-		v := o.AsEObject().EGetResolve(feature, false)
-		i := v.(EList).IndexOf(object)
+		list := o.AsEObject().EGetResolve(feature, false).(EList)
+		// the address of an object is computed without resolving its siblings
+		if objects, _ := list.(EObjectList); objects != nil {
+			if unresolved := objects.GetUnResolvedList(); unresolved != nil {
+				list = unresolved
+			}
+		}
+		i := list.IndexOf(object)
 		s += "." + strconv.Itoa(i)
 	}
 	return s
-- 
2.43.0


From 18a56f913346b523c6ba15912d6e5c20158000ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:48 +0000
Subject: [PATCH 57/65] fix: an object whose identifier was unset is not found
 by its former identifier

---
 ecore/eresource_impl.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index b4a156b..4b5506c 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -308,7 +308,7 @@ func (r *EResourceImpl) getURIFragmentRootSegment(eObject EObject) string {
 }
 
 func (r *EResourceImpl) getIDForObject(eObject EObject) string {
-	if r.objectIDManager != nil {
+	if r.objectIDManager != nil && !r.isIntrinsicID() {
 		if id := r.objectIDManager.GetID(eObject); id != nil {
 			return fmt.Sprintf("%v", id)
 		}
@@ -316,6 +316,13 @@ func (r *EResourceImpl) getIDForObject(eObject EObject) string {
 	return GetEObjectID(eObject)
 }
 
+// isIntrinsicID tells whether the identifiers of the manager are those of the objects,
+// which may have changed since the objects were registered
+func (r *EResourceImpl) isIntrinsicID() bool {
+	_, isIntrinsic := r.objectIDManager.(*EObjectIDManagerImpl)
+	return isIntrinsic
+}
+
 func (r *EResourceImpl) getObjectByID(id string) EObject {
 	if len(id) == 0 {
 		return nil
@@ -323,7 +330,7 @@ func (r *EResourceImpl) getObjectByID(id string) EObject {
 	if r.objectIDManager != nil {
 		if eObject := r.objectIDManager.GetEObject(id); eObject != nil {
 			// the identifier of the object may have changed since it was registered
-			if objectID := GetEObjectID(eObject); len(objectID) == 0 || objectID == id {
+			if objectID := GetEObjectID(eObject); objectID == id || (len(objectID) == 0 && !r.isIntrinsicID()) {
 				return eObject
 			}
 		}
-- 
2.43.0


From aaa0c893b95fbbf1c95b5488e83471567563753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:00 +0000
Subject: [PATCH 58/65] fix: proxies whose addresses lead to each other stay
 proxies, they no longer exhaust the stack

---
 ecore/abstracteobject.go | 19 +++++++++++++------
 ecore/ecoreutils.go      | 41 ++++++++++++++++++++++++++--------------
 2 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 74b2269..0454382 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -964,6 +964,16 @@ func (o *AbstractEObject) eStructuralFeature(featureName string) EStructuralFeat
 	return eFeature
 }
 
+// unresolvedList returns the list of the same objects which does not resolve its proxies
+func unresolvedList(list EList) EList {
+	if objects, _ := list.(EObjectList); objects != nil {
+		if unresolved := objects.GetUnResolvedList(); unresolved != nil {
+			return unresolved
+		}
+	}
+	return list
+}
+
 func (o *AbstractEObject) EObjectForFragmentSegment(uriSegment string) EObject {
 
 	if len(uriSegment) == 0 || uriSegment[0] != '@' {
@@ -979,6 +989,8 @@ func (o *AbstractEObject) EObjectForFragmentSegment(uriSegment string) EObject {
 		pos, err := strconv.Atoi(uriSegment[index+1:])
 		if eFeature := eClass.GetEStructuralFeatureFromName(uriSegment[1:index]); eFeature != nil && err == nil {
 			list, _ := o.AsEObject().EGetResolve(eFeature, false).(EList)
+			// as for single features, the object is not resolved : its address may lead here
+			list = unresolvedList(list)
 			if list != nil && pos >= 0 && pos < list.Size() {
 				eObject, _ := list.Get(pos).(EObject)
 				return eObject
@@ -992,13 +1004,8 @@ func (o *AbstractEObject) EURIFragmentSegment(feature EStructuralFeature, object
 	s := "@"
 	s += feature.GetName()
 	if feature.IsMany() {
-		list := o.AsEObject().EGetResolve(feature, false).(EList)
 		// the address of an object is computed without resolving its siblings
-		if objects, _ := list.(EObjectList); objects != nil {
-			if unresolved := objects.GetUnResolvedList(); unresolved != nil {
-				list = unresolved
-			}
-		}
+		list := unresolvedList(o.AsEObject().EGetResolve(feature, false).(EList))
 		i := list.IndexOf(object)
 		s += "." + strconv.Itoa(i)
 	}
diff --git a/ecore/ecoreutils.go b/ecore/ecoreutils.go
index 119e7c4..95fc0f0 100644
--- a/ecore/ecoreutils.go
+++ b/ecore/ecoreutils.go
@@ -130,26 +130,39 @@ func ResolveInResource(proxy EObject, resource EResource) EObject {
 }
 
 func ResolveInResourceSet(proxy EObject, resourceSet EResourceSet) EObject {
+	var visited map[EObject]struct{}
+	for current := proxy; ; {
+		resolved := resolveInResourceSet(current, resourceSet)
+		if resolved == nil || resolved == current {
+			return current
+		}
+		if visited == nil {
+			visited = map[EObject]struct{}{}
+		}
+		visited[current] = struct{}{}
+		if _, isVisited := visited[resolved]; isVisited {
+			// proxies which lead to each other
+			return proxy
+		}
+		current = resolved
+	}
+}
+
+// resolveInResourceSet returns the object at the address of the proxy, which may be another proxy
+func resolveInResourceSet(proxy EObject, resourceSet EResourceSet) (resolved EObject) {
 	if proxyInternal, _ := proxy.(EObjectInternal); proxyInternal != nil && proxyInternal.EProxyURI() != nil {
 		proxyURI := proxyInternal.EProxyURI()
-		var resolved EObject
 		if resourceSet != nil {
-			resolved = resourceSet.GetEObject(proxyURI, true)
-		} else {
-			trim := proxyURI.TrimFragment()
-			ePackage := GetPackageRegistry().GetPackage(trim.String())
-			if ePackage != nil {
-				eResource := ePackage.EResource()
-				if eResource != nil {
-					resolved = eResource.GetEObject(proxyURI.fragment)
-				}
-			}
+			return resourceSet.GetEObject(proxyURI, true)
 		}
-		if resolved != nil && resolved != proxy {
-			return ResolveInResourceSet(resolved, resourceSet)
+		trim := proxyURI.TrimFragment()
+		if ePackage := GetPackageRegistry().GetPackage(trim.String()); ePackage != nil {
+			if eResource := ePackage.EResource(); eResource != nil {
+				return eResource.GetEObject(proxyURI.fragment)
+			}
 		}
 	}
-	return proxy
+	return nil
 }
 
 func Copy(eObject EObject) EObject {
-- 
2.43.0


From 496df448c61ddb15875db60159e52ff899af80f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:50 +0000
Subject: [PATCH 59/65] fix: resources without address report that they have no
 codec, or are saved and loaded with the default one

---
 ecore/ecodecregistry_impl.go | 18 ++++++++++--------
 ecore/eresource_impl.go      | 16 ++++++++++++----
 ecore/sqlcodec.go            |  8 ++++++++
 ecore/sqldecoder.go          | 14 ++++++++++----
 ecore/sqlencoder.go          |  9 +++++----
 5 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/ecore/ecodecregistry_impl.go b/ecore/ecodecregistry_impl.go
index e54b61f..43421a1 100644
--- a/ecore/ecodecregistry_impl.go
+++ b/ecore/ecodecregistry_impl.go
@@ -33,16 +33,18 @@ func NewECodecRegistryImplWithDelegate(delegate ECodecRegistry) *ECodecRegistryI
 }
 
 func (r *ECodecRegistryImpl) GetCodec(uri *URI) ECodec {
-	if factory, ok := r.protocolToCodec[uri.scheme]; ok {
-		return factory
-	}
-	p := uri.Path()
-	ndx := strings.LastIndex(p, ".")
-	if ndx != -1 {
-		extension := p[ndx+1:]
-		if factory, ok := r.extensionToCodec[extension]; ok {
+	if uri != nil {
+		if factory, ok := r.protocolToCodec[uri.scheme]; ok {
 			return factory
 		}
+		p := uri.Path()
+		ndx := strings.LastIndex(p, ".")
+		if ndx != -1 {
+			extension := p[ndx+1:]
+			if factory, ok := r.extensionToCodec[extension]; ok {
+				return factory
+			}
+		}
 	}
 	if factory, ok := r.extensionToCodec[DEFAULT_EXTENSION]; ok {
 		return factory
diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index 4b5506c..720e391 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -494,17 +494,25 @@ func (r *EResourceImpl) LoadWithOptions(options map[string]any) {
 	}
 }
 
+// getLocation returns the location of the diagnostics of a resource, which may have no uri
+func getLocation(uri *URI) string {
+	if uri == nil {
+		return ""
+	}
+	return uri.String()
+}
+
 func (r *EResourceImpl) LoadWithReader(rd io.Reader, options map[string]any) {
 	if !r.isLoaded {
 		codecs := r.GetCodecRegistry()
 		if codec := codecs.GetCodec(r.uri); codec == nil {
 			errors := r.GetErrors()
 			errors.Clear()
-			errors.Add(NewEDiagnosticImpl("Unable to find codec for '"+r.uri.String()+"'", r.uri.String(), 0, 0))
+			errors.Add(NewEDiagnosticImpl("Unable to find codec for '"+getLocation(r.uri)+"'", getLocation(r.uri), 0, 0))
 		} else if decoder := codec.NewDecoder(r.AsEResource(), rd, options); decoder == nil {
 			errors := r.GetErrors()
 			errors.Clear()
-			errors.Add(NewEDiagnosticImpl("Unable to create decoder for '"+r.uri.String()+"'", r.uri.String(), 0, 0))
+			errors.Add(NewEDiagnosticImpl("Unable to create decoder for '"+getLocation(r.uri)+"'", getLocation(r.uri), 0, 0))
 		} else {
 			r.isLoading = true
 			ri := r.AsEResourceInternal()
@@ -588,11 +596,11 @@ func (r *EResourceImpl) SaveWithWriter(w io.Writer, options map[string]any) {
 	if codec := codecs.GetCodec(r.uri); codec == nil {
 		errors := r.GetErrors()
 		errors.Clear()
-		errors.Add(NewEDiagnosticImpl("Unable to find codec for '"+r.uri.String()+"'", r.uri.String(), 0, 0))
+		errors.Add(NewEDiagnosticImpl("Unable to find codec for '"+getLocation(r.uri)+"'", getLocation(r.uri), 0, 0))
 	} else if encoder := codec.NewEncoder(r.AsEResource(), w, options); encoder == nil {
 		errors := r.GetErrors()
 		errors.Clear()
-		errors.Add(NewEDiagnosticImpl("Unable to create encoder for '"+r.uri.String()+"'", r.uri.String(), 0, 0))
+		errors.Add(NewEDiagnosticImpl("Unable to create encoder for '"+getLocation(r.uri)+"'", getLocation(r.uri), 0, 0))
 	} else {
 		if r.errors != nil {
 			r.errors.Clear()
diff --git a/ecore/sqlcodec.go b/ecore/sqlcodec.go
index dd92eb8..d8b0787 100644
--- a/ecore/sqlcodec.go
+++ b/ecore/sqlcodec.go
@@ -29,6 +29,14 @@ type SQLCodec struct {
 
 const sqlCodecVersion int64 = 1
 
+// sqlFileName returns the name of the database file of a resource, which may have no uri
+func sqlFileName(uri *URI) string {
+	if uri == nil {
+		return "resource"
+	}
+	return filepath.Base(uri.Path())
+}
+
 func sqlTmpDB(prefix string) (string, error) {
 	try := 0
 	for {
diff --git a/ecore/sqldecoder.go b/ecore/sqldecoder.go
index acdf816..df2f5d9 100644
--- a/ecore/sqldecoder.go
+++ b/ecore/sqldecoder.go
@@ -7,7 +7,6 @@ import (
 	"io"
 	"net/url"
 	"os"
-	"path/filepath"
 	"slices"
 	"strconv"
 	"sync"
@@ -728,7 +727,7 @@ func NewSQLReaderDecoder(r io.Reader, resource EResource, options map[string]any
 	return newSQLDecoder(
 		func() (*sqlitex.Pool, error) {
 			// db name
-			dbName := filepath.Base(resource.GetURI().Path())
+			dbName := sqlFileName(resource.GetURI())
 			inMemoryDatabase := false
 			if options != nil {
 				inMemoryDatabase, _ = options[SQL_OPTION_IN_MEMORY_DATABASE].(bool)
@@ -918,7 +917,14 @@ func (d *SQLDecoder) isResourceProxy(featureData *sqlFeatureSchema, value any) b
 	case sfkObjectReference, sfkObjectReferenceList:
 		if eObject, _ := value.(EObjectInternal); eObject != nil {
 			if proxyURI := eObject.EProxyURI(); proxyURI != nil {
-				return proxyURI.Fragment() != "" && proxyURI.TrimFragment().Equals(d.resource.GetURI())
+				if proxyURI.Fragment() == "" {
+					return false
+				}
+				proxyURI = proxyURI.TrimFragment()
+				if resourceURI := d.resource.GetURI(); resourceURI != nil {
+					return proxyURI.Equals(resourceURI)
+				}
+				return proxyURI.IsEmpty()
 			}
 		}
 	}
@@ -1257,5 +1263,5 @@ func (d *SQLDecoder) setFeatureList(eObject EObject, feature EStructuralFeature,
 }
 
 func (d *SQLDecoder) addError(err error) {
-	d.resource.GetErrors().Add(NewEDiagnosticImpl(err.Error(), d.resource.GetURI().String(), 0, 0))
+	d.resource.GetErrors().Add(NewEDiagnosticImpl(err.Error(), getLocation(d.resource.GetURI()), 0, 0))
 }
diff --git a/ecore/sqlencoder.go b/ecore/sqlencoder.go
index bcce3ca..25a2fc4 100644
--- a/ecore/sqlencoder.go
+++ b/ecore/sqlencoder.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"io"
 	"os"
-	"path/filepath"
 	"strconv"
 	"sync"
 	"sync/atomic"
@@ -504,6 +503,9 @@ func (e *sqlEncoder) encodeFeatureValue(containerID int64, featureData *sqlEncod
 				return strconv.FormatInt(sqlID, 10), nil
 			} else {
 				ref := GetURI(eObject)
+				if e.uri == nil {
+					return ref.String(), nil
+				}
 				uri := e.uri.Relativize(ref)
 				return uri.String(), nil
 			}
@@ -816,8 +818,7 @@ func NewSQLWriterEncoder(w io.Writer, resource EResource, options map[string]any
 		)
 	} else {
 		// create a temp file for the database file
-		fileName := filepath.Base(resource.GetURI().Path())
-		dbPath, err := sqlTmpDB(fileName)
+		dbPath, err := sqlTmpDB(sqlFileName(resource.GetURI()))
 		if err != nil {
 			return nil
 		}
@@ -1019,7 +1020,7 @@ func (e *SQLEncoder) EncodeResource() {
 }
 
 func (e *SQLEncoder) addError(err error) {
-	e.resource.GetErrors().Add(NewEDiagnosticImpl(err.Error(), e.resource.GetURI().String(), 0, 0))
+	e.resource.GetErrors().Add(NewEDiagnosticImpl(err.Error(), getLocation(e.resource.GetURI()), 0, 0))
 }
 
 func (e *SQLEncoder) EncodeObject(object EObject) error {
-- 
2.43.0


From 33b8a7b8c2b010843e8f0aa96fe565bd8f1c2934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:18 +0000
Subject: [PATCH 60/65] fix: the resource a generated package creates contains
 the package itself, not its base

---
 ecore/epackage_ext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/epackage_ext.go b/ecore/epackage_ext.go
index 6fb0c20..8022333 100644
--- a/ecore/epackage_ext.go
+++ b/ecore/epackage_ext.go
@@ -87,7 +87,7 @@ func (pack *EPackageExt) CreateResource() EResource {
 		uri := NewURI(pack.GetNsURI())
 		resource = NewEResourceImpl()
 		resource.SetURI(uri)
-		resource.GetContents().Add(pack)
+		resource.GetContents().Add(pack.asEPackage())
 	}
 	return resource
 }
-- 
2.43.0


From 6f29b500b17be077912c7a4adcb45cbdb6499233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:44 +0000
Subject: [PATCH 61/65] fix: operations of dynamic objects without
 implementation are not taken for the operations of EObject

---
 ecore/dynamiceobject_impl.go    | 9 +++++++++
 ecore/reflectiveeobject_impl.go | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/ecore/dynamiceobject_impl.go b/ecore/dynamiceobject_impl.go
index b49debc..2951bc7 100644
--- a/ecore/dynamiceobject_impl.go
+++ b/ecore/dynamiceobject_impl.go
@@ -85,6 +85,15 @@ func (o *DynamicEObjectImpl) EOperationID(operation EOperation) int {
 	return o.EClass().GetOperationID(operation)
 }
 
+// EInvokeFromID invokes an operation of the class : only those of EObject have an implementation
+func (o *DynamicEObjectImpl) EInvokeFromID(operationID int, arguments EList) any {
+	eObjectClass := GetPackage().GetEObject()
+	if operation := o.EClass().GetEOperation(operationID); operation != nil && operation.GetEContainingClass() == eObjectClass {
+		return o.EObjectImpl.EInvokeFromID(eObjectClass.GetOperationID(operation), arguments)
+	}
+	return o.AbstractEObject.EInvokeFromID(operationID, arguments)
+}
+
 func (o *DynamicEObjectImpl) resizeProperties() {
 	newSize := o.EClass().GetFeatureCount()
 	newProperties := make([]any, newSize)
diff --git a/ecore/reflectiveeobject_impl.go b/ecore/reflectiveeobject_impl.go
index f70a796..0b31c22 100644
--- a/ecore/reflectiveeobject_impl.go
+++ b/ecore/reflectiveeobject_impl.go
@@ -72,6 +72,15 @@ func (o *ReflectiveEObjectImpl) EOperationID(operation EOperation) int {
 	return o.EClass().GetOperationID(operation)
 }
 
+// EInvokeFromID invokes an operation of the class : only those of EObject have an implementation
+func (o *ReflectiveEObjectImpl) EInvokeFromID(operationID int, arguments EList) any {
+	eObjectClass := GetPackage().GetEObject()
+	if operation := o.EClass().GetEOperation(operationID); operation != nil && operation.GetEContainingClass() == eObjectClass {
+		return o.EObjectImpl.EInvokeFromID(eObjectClass.GetOperationID(operation), arguments)
+	}
+	return o.AbstractEObject.EInvokeFromID(operationID, arguments)
+}
+
 func (o *ReflectiveEObjectImpl) getProperties() []any {
 	if o.properties == nil {
 		o.properties = make([]any, o.EClass().GetFeatureCount())
-- 
2.43.0


From 908bf68ee6eb7a2455399c0227988609ead25b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:34 +0000
Subject: [PATCH 62/65] fix: a panic while a query is read is an error of the
 query, the connection can be given back

---
 ecore/sqlbase.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ecore/sqlbase.go b/ecore/sqlbase.go
index 4565509..53cb4a4 100644
--- a/ecore/sqlbase.go
+++ b/ecore/sqlbase.go
@@ -282,8 +282,14 @@ func executeUnlocked(fn executeQueryFn, conn *sqlite.Conn, cmd string, opts *sql
 	if opts != nil && opts.ResultFunc != nil {
 		resultFunc := opts.ResultFunc
 		unlockedOpts := *opts
-		unlockedOpts.ResultFunc = func(stmt *sqlite.Stmt) error {
+		unlockedOpts.ResultFunc = func(stmt *sqlite.Stmt) (err error) {
 			hasResult = true
+			// a panic is an error of the query : its statement is reset, otherwise the connection can't be put back in the pool
+			defer func() {
+				if v := recover(); v != nil {
+					err = fmt.Errorf("panic in query '%s': %v", cmd, v)
+				}
+			}()
 			return resultFunc(stmt)
 		}
 		opts = &unlockedOpts
-- 
2.43.0


From 2eeba36777b7fdf1fe6f12781027450ad2a5b0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:34 +0000
Subject: [PATCH 63/65] fix: loading or saving a database which fails leaves no
 worker behind

---
 ecore/sqldecoder.go | 15 ++++++++-------
 ecore/sqlencoder.go |  4 ++--
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/ecore/sqldecoder.go b/ecore/sqldecoder.go
index df2f5d9..e894373 100644
--- a/ecore/sqldecoder.go
+++ b/ecore/sqldecoder.go
@@ -846,6 +846,8 @@ func newSQLDecoder(connectionPoolProvider func() (*sqlitex.Pool, error), connect
 }
 
 func (d *SQLDecoder) DecodeResource() {
+	defer d.antsPool.Release()
+
 	var err error
 	if d.connPool, err = d.connPoolProvider(); err != nil {
 		d.addError(err)
@@ -855,8 +857,6 @@ func (d *SQLDecoder) DecodeResource() {
 		if err := d.connPoolClose(d.connPool); err != nil {
 			d.addError(err)
 		}
-
-		d.antsPool.Release()
 	}()
 
 	if err := d.decodeVersion(); err != nil {
@@ -1112,13 +1112,14 @@ func (d *SQLDecoder) decodeFeatures() error {
 			}
 		}
 	}
-	if len(decoding) > 0 {
-		_, err := promise.AllWithPool(context.Background(), d.promisePool, decoding...).Await(context.Background())
-		if err != nil {
-			return err
+	// wait for all of them, even if one fails : they use the database and the objects
+	var err error
+	for _, p := range decoding {
+		if _, e := p.Await(context.Background()); e != nil && err == nil {
+			err = e
 		}
 	}
-	return nil
+	return err
 }
 
 func (d *SQLDecoder) decodeClassFeatures(eClass EClass) error {
diff --git a/ecore/sqlencoder.go b/ecore/sqlencoder.go
index 25a2fc4..bd3a596 100644
--- a/ecore/sqlencoder.go
+++ b/ecore/sqlencoder.go
@@ -972,6 +972,8 @@ func newSQLEncoder(connectionPoolProvider func() (*sqlitex.Pool, error), connect
 }
 
 func (e *SQLEncoder) EncodeResource() {
+	defer e.antsPool.Release()
+
 	var err error
 	if e.connPool, err = e.connPoolProvider(); err != nil {
 		e.addError(err)
@@ -981,8 +983,6 @@ func (e *SQLEncoder) EncodeResource() {
 		if err := e.connPoolClose(e.connPool); err != nil {
 			e.addError(err)
 		}
-
-		e.antsPool.Release()
 	}()
 
 	if err := e.encodeVersion(); err != nil {
-- 
2.43.0


From 864b9a2adc221253ccacdeb69380595653a7696c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:34 +0000
Subject: [PATCH 64/65] fix: a database which can't be opened leaves neither
 file nor connection behind

---
 ecore/sqldecoder.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/ecore/sqldecoder.go b/ecore/sqldecoder.go
index e894373..08eb54f 100644
--- a/ecore/sqldecoder.go
+++ b/ecore/sqldecoder.go
@@ -618,7 +618,7 @@ const SQLITE_MAX_ALLOCATION_SIZE = 2147483391
 // identifier of the memory databases
 var memoryDatabaseID atomic.Int64
 
-func newMemoryConnectionPool(dbName string, tmpPath string, r io.Reader) (*sqlitex.Pool, error) {
+func newMemoryConnectionPool(dbName string, tmpPath string, r io.Reader) (_ *sqlitex.Pool, err error) {
 	// create a memory connection
 	var connSrc *sqlite.Conn
 
@@ -678,6 +678,13 @@ func newMemoryConnectionPool(dbName string, tmpPath string, r io.Reader) (*sqlit
 		return nil, err
 	}
 
+	defer func() {
+		// database is not used
+		if err != nil {
+			_ = connPool.Close()
+		}
+	}()
+
 	// create connection pool
 	connDst, err := connPool.Take(context.Background())
 	if err != nil {
@@ -692,8 +699,10 @@ func newMemoryConnectionPool(dbName string, tmpPath string, r io.Reader) (*sqlit
 			return nil, err
 		}
 		if more, err := backup.Step(-1); err != nil {
+			_ = backup.Close()
 			return nil, err
 		} else if more {
+			_ = backup.Close()
 			return nil, errors.New("full backup step with remaining pages")
 		}
 		if err := backup.Close(); err != nil {
@@ -740,11 +749,16 @@ func NewSQLReaderDecoder(r io.Reader, resource EResource, options map[string]any
 				}
 				remove = true
 			}
+			var connPool *sqlitex.Pool
 			if inMemoryDatabase {
-				return newMemoryConnectionPool(dbName, dbPath, r)
+				connPool, err = newMemoryConnectionPool(dbName, dbPath, r)
 			} else {
-				return newFileConnectionPool(dbPath, r)
+				connPool, err = newFileConnectionPool(dbPath, r)
+			}
+			if err != nil && remove {
+				_ = os.Remove(dbPath)
 			}
+			return connPool, err
 		},
 		func(connPool *sqlitex.Pool) error {
 			// close connection pool
-- 
2.43.0


From 5e1735c17f38210b6a8f212d29167dc5befbd119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:34 +0000
Subject: [PATCH 65/65] fix: values a feature can't have are errors of the
 database

---
 ecore/sqldecoder.go | 55 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/ecore/sqldecoder.go b/ecore/sqldecoder.go
index 08eb54f..6e34c86 100644
--- a/ecore/sqldecoder.go
+++ b/ecore/sqldecoder.go
@@ -946,8 +946,8 @@ func (d *SQLDecoder) isResourceProxy(featureData *sqlFeatureSchema, value any) b
 }
 
 // resolveResourceProxy returns the object of the resource a proxy refers to, the proxy itself if there is none
-func (d *SQLDecoder) resolveResourceProxy(value any) any {
-	if eObject := d.resource.GetEObject(value.(EObjectInternal).EProxyURI().Fragment()); eObject != nil {
+func (d *SQLDecoder) resolveResourceProxy(feature EStructuralFeature, value any) any {
+	if eObject := d.resource.GetEObject(value.(EObjectInternal).EProxyURI().Fragment()); eObject != nil && isReferenceValue(feature, eObject) {
 		return eObject
 	}
 	return value
@@ -1180,9 +1180,12 @@ func (d *SQLDecoder) decodeColumnFeatures(table *sqlTable, columnFeatures []*sql
 					if err != nil {
 						return err
 					}
+					if err := checkFeatureValue(eObject, columnData.feature, columnValue); err != nil {
+						return err
+					}
 					if d.isResourceProxy(columnData, columnValue) {
 						d.references = append(d.references, func() {
-							eObject.ESet(columnData.feature, d.resolveResourceProxy(columnValue))
+							eObject.ESet(columnData.feature, d.resolveResourceProxy(columnData.feature, columnValue))
 						})
 					} else if columnValue != nil {
 						eObject.ESet(columnData.feature, columnValue)
@@ -1243,11 +1246,19 @@ func (d *SQLDecoder) decodeFeatureList(objectID int64, featureData *sqlFeatureSc
 	if eObject == nil {
 		return fmt.Errorf("unable to find object with id '%v'", objectID)
 	}
+	for _, value := range values {
+		if err := checkFeatureValue(eObject, featureData.feature, value); err != nil {
+			return err
+		}
+		if value == nil && featureData.featureKind == sfkObjectList {
+			return fmt.Errorf("list '%s' contains no object", featureData.feature.GetName())
+		}
+	}
 	if slices.ContainsFunc(values, func(value any) bool { return d.isResourceProxy(featureData, value) }) {
 		d.references = append(d.references, func() {
 			for i, value := range values {
 				if d.isResourceProxy(featureData, value) {
-					values[i] = d.resolveResourceProxy(value)
+					values[i] = d.resolveResourceProxy(featureData.feature, value)
 				}
 			}
 			d.setFeatureList(eObject, featureData.feature, values)
@@ -1258,6 +1269,42 @@ func (d *SQLDecoder) decodeFeatureList(objectID int64, featureData *sqlFeatureSc
 	return nil
 }
 
+// checkFeatureValue returns an error if a value of the database can't be the one of a feature of an object :
+// it is not a feature of the object, value is not an instance of its type or it contains the object.
+func checkFeatureValue(eObject EObject, feature EStructuralFeature, value any) error {
+	if eClass := eObject.EClass(); eClass.GetFeatureID(feature) == -1 {
+		return fmt.Errorf("'%s' is not a feature of class '%s'", feature.GetName(), eClass.GetName())
+	}
+	if eValue, _ := value.(EObject); eValue != nil {
+		if !isReferenceValue(feature, eValue) {
+			return fmt.Errorf("class '%s' is not the one of feature '%s'", eValue.EClass().GetName(), feature.GetName())
+		}
+		var ancestor, descendant EObject
+		if IsContains(feature) {
+			ancestor, descendant = eValue, eObject
+		} else if IsContainer(feature) {
+			ancestor, descendant = eObject, eValue
+		}
+		for ancestor != nil && descendant != nil {
+			if descendant == ancestor {
+				return fmt.Errorf("recursive containment in feature '%s'", feature.GetName())
+			}
+			descendant = descendant.(EObjectInternal).EInternalContainer()
+		}
+	}
+	return nil
+}
+
+// isReferenceValue tells if an object is an instance of the type of a reference
+func isReferenceValue(feature EStructuralFeature, eObject EObject) bool {
+	eReference, _ := feature.(EReference)
+	if eReference == nil {
+		return true
+	}
+	eType := eReference.GetEReferenceType()
+	return eType == GetPackage().GetEObject() || eType.IsSuperTypeOf(eObject.EClass())
+}
+
 func (d *SQLDecoder) setFeatureList(eObject EObject, feature EStructuralFeature, values []any) {
 	eList := eObject.EGetResolve(feature, false).(EList)
 	if eReference, _ := feature.(EReference); eReference != nil && eReference.GetEOpposite() != nil {
-- 
2.43.0

