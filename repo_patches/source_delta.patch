From 3733fcb7a65c207d788572b4b2ee9a7399f8e081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 01/37] fix: collection creation handles failed allocations and
 failed source collections

---
 collection.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/collection.c b/collection.c
index 5014005..d8be579 100644
--- a/collection.c
+++ b/collection.c
@@ -536,6 +536,9 @@ static Collection* createFromFile(
 	Collection *collection = createCollection(
 		sizeof(CollectionFile),
 		header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionFile *fileCollection = (CollectionFile*)collection->state;
 	fileCollection->collection = collection;
 	fileCollection->reader = reader;
@@ -568,9 +571,16 @@ static Collection* createFromFilePartial(
 
 	// Create a file collection to populate the memory collection.
 	Collection *source = createFromFile(file, reader, header, read);
+	if (source == NULL) {
+		return NULL;
+	}
 
 	// Allocate the memory for the collection and implementation.
 	Collection *collection = createCollection(sizeof(CollectionFile), header);
+	if (collection == NULL) {
+		source->freeCollection(source);
+		return NULL;
+	}
 	CollectionMemory *memory = (CollectionMemory*)collection->state;
 	memory->memoryToFree = NULL;
 	memory->collection = collection;
@@ -651,6 +661,9 @@ static Collection* createFromFileCached(
 
 	// Allocate the memory for the collection and implementation.
 	Collection *collection = createCollection(sizeof(CollectionFile), header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionCache *cache = (CollectionCache*)collection->state;
 	cache->cache = NULL;
 
@@ -670,6 +683,7 @@ static Collection* createFromFileCached(
 		cache->source);
 
 	if (cache->cache == NULL) {
+		cache->source->freeCollection(cache->source);
 		freeCacheCollection(collection);
 		return NULL;
 	}
@@ -770,6 +784,9 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromMemory(
 	Collection *collection = createCollection(
 		sizeof(CollectionMemory),
 		&header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionMemory *memory = (CollectionMemory*)collection->state;
 
 	// Configure the fields for the collection.
-- 
2.43.0


From 83bcb79d060b03ef5e2ec44091ac57daa9c4633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 02/37] fix: failed file reads do not leave the item pointing
 to freed memory

---
 collection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collection.c b/collection.c
index d8be579..5144d7f 100644
--- a/collection.c
+++ b/collection.c
@@ -1031,6 +1031,7 @@ void* fiftyoneDegreesCollectionReadFileFixed(
 					// The read failed so free the memory allocated and set the
 					// status code.
 					Free(data->ptr);
+					DataReset(data);
 					EXCEPTION_SET(COLLECTION_FILE_READ_FAIL);
 				}
 			}
@@ -1095,6 +1096,7 @@ static void* readFileVariable(
 					}
 					else {
 						Free(data->ptr);
+						DataReset(data);
 						EXCEPTION_SET(COLLECTION_FILE_READ_FAIL);
 					}
 				}
-- 
2.43.0


From 061555e9a80f67ed6aa62b722de0919369889b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 03/37] fix: data set reload frees the replacement when
 initialisation fails

---
 dataset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataset.c b/dataset.c
index c0f0ec9..91248c3 100644
--- a/dataset.c
+++ b/dataset.c
@@ -330,6 +330,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromFile(
 		fileName,
 		exception);
 	if (status != SUCCESS) {
+		Free(replacement);
 		return status;
 	}
 	
-- 
2.43.0


From ee6ef94a93b1b8c86411ad93f8dc282c3ad4c94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 04/37] fix: header name is freed when its segments can not be
 created

---
 headers.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/headers.c b/headers.c
index 4b50964..52148a1 100644
--- a/headers.c
+++ b/headers.c
@@ -199,7 +199,11 @@ static bool setHeaderFromDataSet(
 	header->isDataSet = true;
 	header->uniqueId = uniqueId;
 	header->segments = createSegmentArray(header->name);
-	return header->segments != NULL;
+	if (header->segments == NULL) {
+		Free((void*)header->name);
+		return false;
+	}
+	return true;
 }
 
 /**
-- 
2.43.0


From 273501fe0aa26c73eb50a4731fa36ae10acca65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 05/37] fix: resource replacement retries when another thread
 replaced the active handle

---
 resource.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resource.c b/resource.c
index 833140c..04c35b1 100644
--- a/resource.c
+++ b/resource.c
@@ -344,7 +344,7 @@ void fiftyoneDegreesResourceReplace(
 	} while (INTERLOCK_EXCHANGE_PTR(
 		manager->active,
 		*newResourceHandle,
-		oldHandle) == false);
+		oldHandle) != oldHandle);
 #else
 	oldHandle = ResourceHandleIncUse(manager);
 	manager->active = *newResourceHandle;
-- 
2.43.0


From 40342b0fa312280a5280b8950ae1ecf76d434f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 06/37] fix: the active resource is kept when the new handle
 can not be allocated

---
 resource.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/resource.c b/resource.c
index 04c35b1..21b4f8c 100644
--- a/resource.c
+++ b/resource.c
@@ -137,6 +137,11 @@ static void setupResource(
 		MallocAligned(
 			sizeof(InterlockDoubleWidth),
 			sizeof(ResourceHandle));
+	if (handle == NULL) {
+		// Indicate to the caller that the handle could not be created.
+		*resourceHandle = NULL;
+		return;
+	}
 
 	// Set the handle and the number of users of the resource to zero.
 	handle->counter = emptyCounter();
@@ -332,6 +337,10 @@ void fiftyoneDegreesResourceReplace(
 		newResource,
 		newResourceHandle,
 		manager->active->freeResource);
+	if (*newResourceHandle == NULL) {
+		// The existing resource remains active.
+		return;
+	}
 	assert(getInUse(&(*newResourceHandle)->counter) == 0);
 	assert(getHandle(&(*newResourceHandle)->counter) == *newResourceHandle);
 #ifndef FIFTYONE_DEGREES_NO_THREADING
-- 
2.43.0


From 9798ae97003b0c5f7c3fcbee89dc25a277be82ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 07/37] fix: message text allocation failures are handled

---
 exceptionsc.c | 18 ++++++++++--------
 status.c      |  4 +++-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/exceptionsc.c b/exceptionsc.c
index ad5db21..614545c 100644
--- a/exceptionsc.c
+++ b/exceptionsc.c
@@ -44,14 +44,16 @@ const char* fiftyoneDegreesExceptionGetMessage(
 		length += exception->func != NULL ? strlen(exception->func) : 0;
 		length += 10; // add 10 for line number
 		exceptionMessage = (char*)Malloc(length);
-		Snprintf(
-			exceptionMessage,
-			length,
-			format,
-			statusMessage,
-			exception->file,
-			exception->func,
-			exception->line);
+		if (exceptionMessage != NULL) {
+			Snprintf(
+				exceptionMessage,
+				length,
+				format,
+				statusMessage,
+				exception->file,
+				exception->func,
+				exception->line);
+		}
 		Free((void*)statusMessage);
 	}
 	return exceptionMessage;
diff --git a/status.c b/status.c
index 8ba7735..fa30e0f 100644
--- a/status.c
+++ b/status.c
@@ -155,7 +155,9 @@ const char* fiftyoneDegreesStatusGetMessage(
 	if( message == NULL) {
 		messageSize = sizeof(defaultMessage) + 5;
 		message = (char*)Malloc(messageSize);
-		Snprintf(message, messageSize, defaultMessage, (int)status);
+		if (message != NULL) {
+			Snprintf(message, messageSize, defaultMessage, (int)status);
+		}
 	}
 	return message;
 }
\ No newline at end of file
-- 
2.43.0


From c3130dae5d78470d209e2a7b55b879bb2498db7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 08/37] fix: override values are not copied when their memory
 can not be allocated

---
 overrides.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/overrides.c b/overrides.c
index 675e84c..1193bff 100644
--- a/overrides.c
+++ b/overrides.c
@@ -146,23 +146,26 @@ bool fiftyoneDegreesOverridesAdd(
 		}
 		override = &values->items[currentOverrideIndex];
 
-		if (currentOverrideIndex == values->count) {
-			// Increment the override count and set the required property
-			// index.
-			values->count++;
-			override->requiredPropertyIndex = requiredPropertyIndex;
-		}
-
 		// Ensure there is sufficient memory for the string being copied.
 		length = strlen(value);
 		copy = (String*)fiftyoneDegreesDataMalloc(
 			&override->string,
 			sizeof(String) + length);
+		if (copy == NULL) {
+			return false;
+		}
 
 		// Copy the string from the evidence pair to the override data 
 		// item.
 		memcpy(&copy->value, value, length + 1);
 		copy->size = (int16_t)(length + 1);
+
+		if (currentOverrideIndex == values->count) {
+			// Increment the override count and set the required property
+			// index.
+			values->count++;
+			override->requiredPropertyIndex = requiredPropertyIndex;
+		}
 	}
 
 	return values->count < values->capacity;
-- 
2.43.0


From c4a3358565d949b478846fedf2d200f122bc8157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:28 +0000
Subject: [PATCH 09/37] fix: file pool compiles with exceptions disabled

---
 file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/file.c b/file.c
index b518a4b..f99679a 100644
--- a/file.c
+++ b/file.c
@@ -979,9 +979,11 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFilePoolInit(
 			status = FILE_FAILURE;
 		}
 	}
+#ifndef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
 	else if (EXCEPTION_FAILED) {
 		status = exception->status;
 	}
+#endif
 	else {
 		status = INSUFFICIENT_MEMORY;
 	}
-- 
2.43.0


From 339c07253195c2e7bc2c7acc84a6f7cb57925d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:38 +0000
Subject: [PATCH 10/37] fix: memory tracking ignores NULL pointers

---
 memory.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/memory.c b/memory.c
index 50ba167..d5c7a1a 100644
--- a/memory.c
+++ b/memory.c
@@ -194,7 +194,9 @@ void* fiftyoneDegreesMemoryTrackingMallocAligned(
 		size);
 
 	// Track the allocation.
-	trackAllocation(pointer, size + size % alignment);
+	if (pointer != NULL) {
+		trackAllocation(pointer, size + size % alignment);
+	}
 	return pointer;
 }
 
@@ -207,7 +209,9 @@ void* fiftyoneDegreesMemoryTrackingMalloc(size_t size) {
 	void* pointer = MemoryStandardMalloc(size);
 
 	// Track the allocation.
-	trackAllocation(pointer, size);
+	if (pointer != NULL) {
+		trackAllocation(pointer, size);
+	}
 	return pointer;
 }
 
@@ -224,12 +228,18 @@ void fiftyoneDegreesMemoryStandardFreeAligned(void* pointer) {
 }
 
 void fiftyoneDegreesMemoryTrackingFree(void *pointer) {
+	if (pointer == NULL) {
+		return;
+	}
 	untrackAllocation(pointer);
 	// Finally free the pointer.
 	MemoryStandardFree(pointer);
 }
 
 void fiftyoneDegreesMemoryTrackingFreeAligned(void* pointer) {
+	if (pointer == NULL) {
+		return;
+	}
 	untrackAllocation(pointer);
 	// Finally free the pointer.
 	MemoryStandardFreeAligned(pointer);
-- 
2.43.0


From 6ee552b2a2c7f9d4eea7095cfaded7ea01b7bac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:38 +0000
Subject: [PATCH 11/37] fix: name of the aligned allocation pointer when memory
 tracking is enabled

---
 memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memory.c b/memory.c
index d5c7a1a..e9006c6 100644
--- a/memory.c
+++ b/memory.c
@@ -298,7 +298,7 @@ size_t fiftyoneDegreesUnsetMemoryTracking() {
 void *(FIFTYONE_DEGREES_CALL_CONV *fiftyoneDegreesMalloc)(size_t size) =
 fiftyoneDegreesMemoryTrackingMalloc;
 
-void* (FIFTYONE_DEGREES_CALL_CONV* fiftyoneDegreessMallocAligned)(
+void* (FIFTYONE_DEGREES_CALL_CONV* fiftyoneDegreesMallocAligned)(
 	int alignment,
 	size_t size) = fiftyoneDegreesMemoryTrackingMallocAligned;
 
-- 
2.43.0


From 68a35cfc200127b43961ae1611cfaf147360d48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:49 +0000
Subject: [PATCH 12/37] fix: memory from the configured allocator is returned
 to it

---
 collection.c | 6 +++---
 file.c       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/collection.c b/collection.c
index 5144d7f..1571bcc 100644
--- a/collection.c
+++ b/collection.c
@@ -931,13 +931,13 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 
 	// Position the file reader at the start of the collection.
 	if (fseek(file, header.startPosition, SEEK_SET) != 0) {
-		free(data);
+		Free(data);
 		return NULL;
 	}
 
 	// Read the portion of the file into memory.
 	if (fread(memory.startByte, 1, header.length, file) != header.length) {
-		free(data);
+		Free(data);
 		return NULL;
 	}
 
@@ -945,7 +945,7 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 	result = CollectionCreateFromMemory(&memory, header);
 
 	if (result == NULL) {
-		free(data);
+		Free(data);
 		return NULL;
 	}
 
diff --git a/file.c b/file.c
index f99679a..23f0d69 100644
--- a/file.c
+++ b/file.c
@@ -1069,7 +1069,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileReadToByteArray(
 				// The file could not be loaded into memory. Release the 
 				// memory allocated earlier and set the status to file 
 				// failure.
-				free(reader->current);
+				Free(reader->current);
 				reader->startByte = NULL;
 				reader->current = NULL;
 				reader->length = 0;
-- 
2.43.0


From 434830a9dff592032a5d0de222c926d3d6262630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:05 +0000
Subject: [PATCH 13/37] fix: headers compile on their own and declare only what
 is defined

---
 config.h  | 2 ++
 pair.h    | 2 ++
 process.h | 1 +
 tree.h    | 5 -----
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/config.h b/config.h
index 3c13abc..8802fc0 100644
--- a/config.h
+++ b/config.h
@@ -23,6 +23,8 @@
 #ifndef FIFTYONE_DEGREES_CONFIG_H_INCLUDED
 #define FIFTYONE_DEGREES_CONFIG_H_INCLUDED
 
+#include <stdbool.h>
+
 /**
  * @ingroup FiftyOneDegreesCommon
  * @defgroup FiftyOneDegreesConfig Config
diff --git a/pair.h b/pair.h
index a548f6d..a0ae7ef 100644
--- a/pair.h
+++ b/pair.h
@@ -23,6 +23,8 @@
 #ifndef FIFTYONE_DEGREES_PAIR_H_INCLUDED
 #define FIFTYONE_DEGREES_PAIR_H_INCLUDED
 
+#include <stddef.h>
+
 typedef struct fiftyone_degrees_key_value_pair_t {
 	char* key;
 	size_t keyLength;
diff --git a/process.h b/process.h
index e7b7632..7f842e6 100644
--- a/process.h
+++ b/process.h
@@ -23,6 +23,7 @@
 #ifndef FIFTYONE_DEGREES_PROCESS_H_INCLUDED
 #define FIFTYONE_DEGREES_PROCESS_H_INCLUDED
 
+#include <stdint.h>
 #include "common.h"
 
 /**
diff --git a/tree.h b/tree.h
index b1a2fbd..da9e8dd 100644
--- a/tree.h
+++ b/tree.h
@@ -98,11 +98,6 @@ typedef void(*fiftyoneDegreesTreeIterateMethod)(
 	void* state,
 	fiftyoneDegreesTreeNode* node);
 
-/**
- * Empty tree node.
- */
-extern fiftyoneDegreesTreeNode *fiftyoneDegreesTreeEmpty;
-
 /**
  * Used by assert statements to validate the number of entries in the cache for
  * debugging should any changes be made to the logic. Should not be compiled in
-- 
2.43.0


From 2f4d4124231baacb00279b497c4cd4a22ca14356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:28 +0000
Subject: [PATCH 14/37] fix: a failed search of a collection is not reported as
 found at index 0

---
 collection.c | 5 +++--
 profile.c    | 3 ++-
 value.c      | 5 ++++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/collection.c b/collection.c
index 1571bcc..a13d9ef 100644
--- a/collection.c
+++ b/collection.c
@@ -1214,14 +1214,15 @@ long fiftyoneDegreesCollectionBinarySearch(
 		// Get the item from the collection checking for NULL or an error.
 		if (collection->get(collection, middle, item, exception) == NULL ||
 			EXCEPTION_OKAY == false) {
-			return 0;
+			return -1;
 		}
 		
 		// Perform the binary search using the comparer provided with the item
 		// just returned.
 		comparisonResult = comparer(state, item, middle, exception);
 		if (EXCEPTION_OKAY == false) {
-			return 0;
+			COLLECTION_RELEASE(collection, item);
+			return -1;
 		}
 
 		if (comparisonResult == 0) {
diff --git a/profile.c b/profile.c
index 8a1a2c0..529fc0c 100644
--- a/profile.c
+++ b/profile.c
@@ -159,7 +159,8 @@ uint32_t* fiftyoneDegreesProfileGetOffsetForProfileId(
 	if (profileId == 0) {
 		EXCEPTION_SET(PROFILE_EMPTY);
 	}
-	else if (CollectionBinarySearch(
+	else if (CollectionGetCount(profileOffsets) > 0 &&
+		CollectionBinarySearch(
 		profileOffsets,
 		&profileOffsetItem,
 		0,
diff --git a/value.c b/value.c
index 16bdbbc..63c7938 100644
--- a/value.c
+++ b/value.c
@@ -207,6 +207,9 @@ long fiftyoneDegreesValueGetIndexByName(
 	DataReset(&item.data);
 	search.valueName = valueName;
 	search.strings = strings;
+	if ((int)property->firstValueIndex == -1) {
+		return -1;
+	}
 	index = CollectionBinarySearch(
 		values,
 		&item,
@@ -215,7 +218,7 @@ long fiftyoneDegreesValueGetIndexByName(
 		(void*)&search,
 		compareValueByName,
 		exception);
-	if (EXCEPTION_OKAY) {
+	if (index >= 0) {
 		COLLECTION_RELEASE(values, &item);
 	}
 	return index;
-- 
2.43.0


From bbdc5a5115269d44cb16687f2ee727f3bd6b64e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:51 +0000
Subject: [PATCH 15/37] fix: items are released once, through the collection
 they came from

---
 component.c | 11 ++++++-----
 headers.c   |  1 +
 profile.c   | 17 ++++++++++-------
 property.c  | 10 ++++++++--
 4 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/component.c b/component.c
index 34de863..c20675d 100644
--- a/component.c
+++ b/component.c
@@ -113,12 +113,13 @@ void fiftyoneDegreesComponentInitList(
 				offset,
 				&item,
 				exception);
-			if (component != NULL && EXCEPTION_OKAY) {
-				ListAdd(list, &item);
-
-				// Move to the next component in the collection.
-				offset += getFinalComponentSize((void*)component);
+			if (component == NULL || EXCEPTION_FAILED) {
+				break;
 			}
+			ListAdd(list, &item);
+
+			// Move to the next component in the collection.
+			offset += getFinalComponentSize((void*)component);
 		}
 	}
 }
diff --git a/headers.c b/headers.c
index 52148a1..1f96a5d 100644
--- a/headers.c
+++ b/headers.c
@@ -284,6 +284,7 @@ static bool addHeadersFromDataSet(
 				name,
 				nameLength,
 				(HeaderID)uniqueId) == false) {
+				COLLECTION_RELEASE(item.collection, &item);
 				return false;
 			}
 
diff --git a/profile.c b/profile.c
index 529fc0c..3d4cc05 100644
--- a/profile.c
+++ b/profile.c
@@ -128,8 +128,8 @@ static uint32_t iterateValues(
 	// Loop through until the last value for the property has been returned
 	// or the callback doesn't need to continue.
 	while (cont == true &&
-		*valueIndex <= property->lastValueIndex &&
 		valueIndex < maxValueIndex &&
+		*valueIndex <= property->lastValueIndex &&
 		EXCEPTION_OKAY) {
 
 		// Reset the items as they should never share the same memory.
@@ -282,6 +282,7 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 	fiftyoneDegreesProfileIterateMethod callback,
 	fiftyoneDegreesException *exception) {
 	uint32_t i, count = 0;
+	bool cont = true;
 	Item propertyItem, offsetItem, profileItem;
 	uint32_t *profileValueIndex, *maxProfileValueIndex;
 	Property *property;
@@ -305,7 +306,9 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 			DataReset(&offsetItem.data);
 			DataReset(&profileItem.data);
 			uint32_t profileOffsetsCount = CollectionGetCount(profileOffsets);
-			for (i = 0; i < profileOffsetsCount; i++) {
+			for (i = 0;
+				i < profileOffsetsCount && cont && EXCEPTION_OKAY;
+				i++) {
 				profileOffset = (ProfileOffset*)profileOffsets->get(
 					profileOffsets,
 					i,
@@ -324,19 +327,19 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 						if (profileValueIndex != NULL) {
 							maxProfileValueIndex = ((uint32_t*)(profile + 1)) +
 								profile->valueCount;
-							while (*profileValueIndex <=
-								property->lastValueIndex &&
-								profileValueIndex < maxProfileValueIndex) {
+							while (profileValueIndex < maxProfileValueIndex &&
+								*profileValueIndex <=
+								property->lastValueIndex) {
 								if ((uint32_t)valueIndex ==
 									*profileValueIndex) {
-									callback(state, &profileItem);
+									cont = callback(state, &profileItem);
 									count++;
 									break;
 								}
 								profileValueIndex++;
 							}
 						}
-						COLLECTION_RELEASE(profileOffsets, &profileItem);
+						COLLECTION_RELEASE(profiles, &profileItem);
 					}
 					COLLECTION_RELEASE(profileOffsets, &offsetItem);
 				}
diff --git a/property.c b/property.c
index 9ee0eb6..8f444c8 100644
--- a/property.c
+++ b/property.c
@@ -125,7 +125,13 @@ fiftyoneDegreesProperty* fiftyoneDegreesPropertyGetByName(
 				property,
 				&propertyNameItem,
 				exception);
-			if (name != NULL) {
+			if (name == NULL) {
+
+				// Without a name the property can't be the one required.
+				property = NULL;
+				COLLECTION_RELEASE(properties, item);
+			}
+			else {
 
 				// If the property name for this index doesn't match then
 				// release the property and set the property pointer back to
@@ -137,7 +143,7 @@ fiftyoneDegreesProperty* fiftyoneDegreesPropertyGetByName(
 				}
 
 				// Release the property name as this is not needed again.
-				COLLECTION_RELEASE(properties, &propertyNameItem);
+				COLLECTION_RELEASE(strings, &propertyNameItem);
 			}
 		}
 	}
-- 
2.43.0


From 591b07bce71d702a2d8252ee4a08718bf8e7f4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 16/37] fix: check for a file being in use only closes
 directories it opened and leaves room for the terminator of the link

---
 file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.c b/file.c
index 23f0d69..5e0afd8 100644
--- a/file.c
+++ b/file.c
@@ -509,7 +509,7 @@ static bool isFileInUse(const char *pathName) {
 							fdPath,
 							ent2->d_name) >= 0) {
 							ssize_t written =
-								readlink(linkFile, linkPath, FILE_MAX_PATH);
+								readlink(linkFile, linkPath, FILE_MAX_PATH - 1);
 							if (written >= 0) {
 								linkPath[written] = '\0';
 								size_t linkPathLen = strlen(linkPath);
@@ -526,8 +526,8 @@ static bool isFileInUse(const char *pathName) {
 						}
 					}
 				}
+				closedir(fdDir);
 			}
-			closedir(fdDir);
 		}
 		closedir(procDir);
 	}
-- 
2.43.0


From 07aba229d0d7f7ffc26eaf7989e2eeaa826ef37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 17/37] fix: failures to read, position or close a file are
 reported

---
 file.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/file.c b/file.c
index 5e0afd8..d6a32c1 100644
--- a/file.c
+++ b/file.c
@@ -150,7 +150,9 @@ static StatusCode fileCopy(FILE *source, FILE *destination) {
 	unsigned char buffer[8192];
 	size_t lengthRead, lengthWritten = 0;
 	if (fseek(source, 0L, SEEK_END) == 0) {
-		fseek(source, 0L, SEEK_SET);
+		if (fseek(source, 0L, SEEK_SET) != 0) {
+			return FILE_COPY_ERROR;
+		}
 		lengthRead = fread(buffer, 1, sizeof(buffer), source);
 		while (lengthRead > 0) {
 			lengthWritten = fwrite(buffer, 1, lengthRead, destination);
@@ -159,8 +161,9 @@ static StatusCode fileCopy(FILE *source, FILE *destination) {
 			}
 			lengthRead = fread(buffer, 1, sizeof(buffer), source);
 		}
+		return ferror(source) == 0 ? SUCCESS : FILE_COPY_ERROR;
 	}
-	return SUCCESS;
+	return FILE_COPY_ERROR;
 }
 
 /**
@@ -587,7 +590,9 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileWrite(
 		if (fwrite(data, length, 1, file) != 1) {
 			status = FILE_FAILURE;
 		}
-		fclose(file);
+		if (fclose(file) != 0) {
+			status = FILE_FAILURE;
+		}
 	}
 	return status;
 }
@@ -975,7 +980,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFilePoolInit(
 			freeFileHandle,
 			exception) != NULL &&
 		EXCEPTION_OKAY) {
-		if (setLength(filePool, exception) == 0) {
+		if (setLength(filePool, exception) <= 0) {
 			status = FILE_FAILURE;
 		}
 	}
@@ -1033,7 +1038,9 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileCopy(
 			return status;
 		}
 		status = fileCopy(sourceFile, destinationFile);
-		fclose(destinationFile);
+		if (fclose(destinationFile) != 0 && status == SUCCESS) {
+			status = FILE_COPY_ERROR;
+		}
 		// Delete the destination file if the status code is not success.
 		if (status != SUCCESS) {
 			FileDelete(destination);
@@ -1061,6 +1068,11 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileReadToByteArray(
 	if (status == SUCCESS) {
 		// Get the size of the file and allocate sufficient memory.
 		reader->length = fileGetSize(sourceFile);
+		if (reader->length < 0) {
+			reader->length = 0;
+			fclose(sourceFile);
+			return FILE_FAILURE;
+		}
 		reader->current = reader->startByte = (byte*)Malloc(
 			sizeof(char) * reader->length);
 		if (reader->current != NULL) {
-- 
2.43.0


From 3431f088b0a26cd016a435af6ef52f6d4f3b7158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 18/37] fix: every temporary path is searched and only the
 first writable one is used

---
 file.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file.c b/file.c
index d6a32c1..b87ce0a 100644
--- a/file.c
+++ b/file.c
@@ -680,7 +680,7 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 		// Look in the directories provided.
 		for (i = 0; i < count; i++) {
 			iterateFiles(
-				paths[0],
+				paths[i],
 				&state,
 				iteratorFileCompare,
 				iteratorFileDelete);
@@ -718,7 +718,7 @@ bool fiftyoneDegreesFileGetExistingTempFile(
 		// Look in the directories provided.
 		for (i = 0; i < count; i++) {
 			if (iterateFiles(
-				paths[0],
+				paths[i],
 				&state,
 				iteratorFileCompare,
 				iteratorFileMatch) == true) {
@@ -814,7 +814,7 @@ fiftyoneDegreesStatusCode createTempFileWithPaths(
 	StatusCode status = NOT_SET;
 	const char* masterFileName = getNameFromPath(masterFile);
 
-	for (int i = 0; i < count; i++) {
+	for (int i = 0; i < count && status != SUCCESS; i++) {
 		int charAdded = 0;
 		nameStart = strlen(paths[i]);
 		if (nameStart != 0 &&
-- 
2.43.0


From eab81701ce29245481ad214c86e3180f108fde77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 19/37] fix: paths and comparisons of files stay within their
 buffers

---
 file.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/file.c b/file.c
index b87ce0a..1c8284a 100644
--- a/file.c
+++ b/file.c
@@ -284,7 +284,10 @@ static bool compareFiles(
 
 	while (ftell(file) < size &&
 		(bytesToCompare < 0 || ftell(file) < bytesToCompare)) {
-		read = bytesToCompare > 0 ? bytesToCompare : (long)sizeof(buffer);
+		read = bytesToCompare > 0 ? bytesToCompare - ftell(file) : size;
+		if (read > (long)sizeof(buffer)) {
+			read = (long)sizeof(buffer);
+		}
 		if (size - ftell(file) < read) {
 			read = size - ftell(file);
 		}
@@ -358,9 +361,12 @@ static bool iterateFiles(
 	fileMatch match) {
 	char tempPath[FIFTYONE_DEGREES_FILE_MAX_PATH];
 	size_t nameStart;
+	nameStart = strlen(path);
+	if (nameStart + 1 >= FIFTYONE_DEGREES_FILE_MAX_PATH) {
+		return false;
+	}
 	// Append a slash to the path if one is not there already.
 	strcpy(tempPath, path);
-	nameStart = strlen(path);
 	if (nameStart != 0 &&
 		tempPath[nameStart - 1] != '/' &&
 		tempPath[nameStart - 1] != '\\') {
@@ -422,7 +428,11 @@ static bool iterateFiles(
 	if (dir != NULL) {
 		// Iterate over all files.
 		while ((ent = readdir(dir)) != NULL) {
-			// Append the name to the path.
+			// Append the name to the path if it fits.
+			if (nameStart + strlen(ent->d_name) >=
+				FIFTYONE_DEGREES_FILE_MAX_PATH) {
+				continue;
+			}
 			strcpy(tempPath + nameStart, ent->d_name);
 			// Call match and return if the file is a match.
 			if (compare(tempPath, state)) {
@@ -630,7 +640,7 @@ static fiftyoneDegreesStatusCode getBasenameWithoutExtension(
 	size_t length) {
 	StatusCode status = NOT_SET;
 	const char* pos = getNameFromPath(path);
-	char* dot = strrchr(path, '.');
+	const char* dot = strrchr(pos, '.');
 	size_t end = strlen(pos);
 	if (dot != NULL) {
 		end = dot - pos;
@@ -760,7 +770,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileAddTempFileName(
 		if (charsAdded < 0) {
 			status = ENCODING_ERROR;
 		}
-		else if ((size_t)charsAdded > length) {
+		else if ((size_t)charsAdded >= length) {
 			status = INSUFFICIENT_MEMORY;
 		}
 		else {
@@ -832,7 +842,7 @@ fiftyoneDegreesStatusCode createTempFileWithPaths(
 		if (charAdded < 0) {
 			status = ENCODING_ERROR;
 		}
-		else if ((size_t)charAdded > length) {
+		else if ((size_t)charAdded >= length) {
 			status = INSUFFICIENT_MEMORY;
 		}
 		else {
@@ -893,8 +903,13 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileCreateTempFile(
 	}
 	else if (paths != NULL) {
 		for (i = 0; i < count; i++) {
-			strcpy(tempPath, paths[i]);
 			nameStart = strlen(paths[i]);
+			if (nameStart + TEMP_UNIQUE_STRING_LENGTH >=
+				FIFTYONE_DEGREES_FILE_MAX_PATH) {
+				status = FILE_PATH_TOO_LONG;
+				continue;
+			}
+			strcpy(tempPath, paths[i]);
 			if (nameStart != 0 &&
 				tempPath[nameStart - 1] != '/' &&
 				tempPath[nameStart - 1] != '\\') {
-- 
2.43.0


From 1919db7725af7b4ec46a7a487c2091b2207b9180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:25 +0000
Subject: [PATCH 20/37] fix: failures to read a yaml file, position a
 collection, or allocate a list or evidence properties are reported

---
 collection.c | 13 ++++++++++++-
 component.c  |  3 +++
 properties.c | 45 +++++++++++++++++++++++++++++----------------
 yamlfile.c   | 19 +++++++++++++------
 4 files changed, 57 insertions(+), 23 deletions(-)

diff --git a/collection.c b/collection.c
index a13d9ef..d27ac9e 100644
--- a/collection.c
+++ b/collection.c
@@ -517,6 +517,9 @@ static CollectionFile* readFile(CollectionFile *fileCollection, FILE *file) {
 
 	// Record the offset in the source file to the collection.
 	fileCollection->offset = ftell(file);
+	if (fileCollection->offset < 0) {
+		return NULL;
+	}
 
 	// Move the file handle past the collection.
 	if (fseek(file, fileCollection->collection->size, SEEK_CUR) != 0) {
@@ -868,6 +871,7 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 #ifndef FIFTYONE_DEGREES_MEMORY_ONLY
 
 	Collection **next = &result;
+	long position;
 
 	if (config->loaded > 0) {
 
@@ -890,9 +894,16 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 		next = &result->next;
 	}
 
+	position = ftell(file);
+	if (position < 0) {
+		if (result != NULL) {
+			result->freeCollection(result);
+		}
+		return NULL;
+	}
 	if (result == NULL || (
 		result->count == config->loaded &&
-		(long)result->size < (long)(ftell(file) - header.startPosition))) {
+		(long)result->size < (long)(position - header.startPosition))) {
 
 		// Create the next collection if one is needed.
 		*next = createFromFileSecond(file, reader, config, header, read);
diff --git a/component.c b/component.c
index c20675d..54f9c68 100644
--- a/component.c
+++ b/component.c
@@ -122,4 +122,7 @@ void fiftyoneDegreesComponentInitList(
 			offset += getFinalComponentSize((void*)component);
 		}
 	}
+	else {
+		EXCEPTION_SET(INSUFFICIENT_MEMORY);
+	}
 }
diff --git a/properties.c b/properties.c
index 4443158..917f674 100644
--- a/properties.c
+++ b/properties.c
@@ -313,20 +313,24 @@ static PropertiesAvailable* initAllProperties(
 	return available;
 }
 
-static void setPropertyNames(
+static bool setPropertyNames(
 	propertiesSource* source,
 	PropertiesAvailable* available) {
 	uint32_t i;
+	bool complete = true;
 	for (i = 0; i < available->count; i++) {
 		DataReset(&available->items[i].name.data);
-		source->getName(
+		if (source->getName(
 			source->state,
 			available->items[i].propertyIndex,
-			&available->items[i].name);
+			&available->items[i].name) == NULL) {
+			complete = false;
+		}
 	}
+	return complete;
 }
 
-static void setEvidenceProperties(
+static bool setEvidenceProperties(
 	propertiesSource* source,
 	PropertiesAvailable* available) {
 	uint32_t i, count;
@@ -342,15 +346,17 @@ static void setEvidenceProperties(
 			fiftyoneDegreesEvidencePropertyIndex,
 			available->items[i].evidenceProperties,
 			count);
-		if (available->items[i].evidenceProperties != NULL) {
-			// Now populate the array and set the counjt.
-			count = source->getEvidence(
-				source->state,
-				&available->items[i],
-				available->items[i].evidenceProperties);
-			available->items[i].evidenceProperties->count = count;
+		if (available->items[i].evidenceProperties == NULL) {
+			return false;
 		}
+		// Now populate the array and set the count.
+		count = source->getEvidence(
+			source->state,
+			&available->items[i],
+			available->items[i].evidenceProperties);
+		available->items[i].evidenceProperties->count = count;
 	}
+	return true;
 }
 
 static int comparePropertyNamesAscending(const void *a, const void *b) {
@@ -371,17 +377,21 @@ static void sortRequiredProperties(
 		comparePropertyNamesAscending);
 }
 
-static void initRequiredProperties(
+static bool initRequiredProperties(
 	propertiesSource *source,
 	PropertiesAvailable *available) {
 	uint32_t i;
 	String *string;
 
 	// Set the names for each of the properties.
-	setPropertyNames(source, available);
+	if (setPropertyNames(source, available) == false) {
+		return false;
+	}
 
 	// Set the evidence properties for each of the properties.
-	setEvidenceProperties(source, available);
+	if (setEvidenceProperties(source, available) == false) {
+		return false;
+	}
 
 	// Sort these names in ascending order.
 	sortRequiredProperties(available);
@@ -396,6 +406,7 @@ static void initRequiredProperties(
 				string->size - 1);
 		}
 	}
+	return true;
 }
 
 static int comparePropertyNamesAscendingSearch(const void *a, const void *b) {
@@ -447,8 +458,10 @@ fiftyoneDegreesPropertiesAvailable* fiftyoneDegreesPropertiesCreate(
 
 	// Set the require property name strings to match the require property
 	// index.
-	if (available != NULL) {
-		initRequiredProperties(&source, available);
+	if (available != NULL &&
+		initRequiredProperties(&source, available) == false) {
+		PropertiesFree(available);
+		available = NULL;
 	}
 
 	return available;
diff --git a/yamlfile.c b/yamlfile.c
index 6a5933c..91d10e6 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -69,13 +69,17 @@ static StatusCode readNextBlock(FileState* fileState) {
 	return status;
 }
 
-// Read the next character or null if there are no more characters to be read.
-static char* readNext(FileState* fileState) {
-	StatusCode status = SUCCESS;
+// Read the next character or null if there are no more characters to be read
+// or they can't be read. The status is only changed in the latter case.
+static char* readNext(FileState* fileState, StatusCode* status) {
+	StatusCode readStatus;
 	fileState->current++;
 	if (fileState->current > fileState->end) {
-		status = readNextBlock(fileState);
-		if (status != SUCCESS) {
+		readStatus = readNextBlock(fileState);
+		if (readStatus != SUCCESS) {
+			if (readStatus != FILE_END_OF_FILE) {
+				*status = readStatus;
+			}
 			return NULL;
 		}
 	}
@@ -195,7 +199,10 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 	}
 
 	while (true) {
-		current = readNext(&fileState);
+		current = readNext(&fileState, &status);
+		if (status != SUCCESS) {
+			break;
+		}
 
 		// If EOF or the first new line then move to the next pair.
 		if (!current || *current == '\n' || *current == '\r') {
-- 
2.43.0


From 925941fb0d1f56b336d5cc7ec1bab75f9b2ef146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:45 +0000
Subject: [PATCH 21/37] fix: a value sought that is not an IP address matches
 no IP address

---
 value.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/value.c b/value.c
index 63c7938..1bd0e79 100644
--- a/value.c
+++ b/value.c
@@ -82,7 +82,8 @@ static int compareCoordinate(String *value, const char *target) {
  * for smaller and positive for bigger
  */
 static int compareIpAddress(String *value, const char *target) {
-	int result = 0;
+	// If the target is not an IP address then it does not match.
+	int result = -1;
 	fiftyoneDegreesEvidenceIpAddress *ipAddress
 		= fiftyoneDegreesIpParseAddress(
 			Malloc, 
-- 
2.43.0


From e1a1481e8d1d7f07ea9489656487f20fa5b36dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:47 +0000
Subject: [PATCH 22/37] fix: count the hits and misses of the shards of a cache
 without a data race

---
 cache.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/cache.c b/cache.c
index 279e989..6c85349 100644
--- a/cache.c
+++ b/cache.c
@@ -290,6 +290,19 @@ static CacheNode* cacheLoad(
 	return node;
 }
 
+/**
+ * Increments a metric of the cache. The metrics are shared by all the shards
+ * so are not protected by the lock of the shard.
+ * @param metric to increment
+ */
+static void cacheIncrement(unsigned long *metric) {
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+	FIFTYONE_DEGREES_INTERLOCK_INC((volatile long*)metric);
+#else
+	(*metric)++;
+#endif
+}
+
 /**
  * Free the data containing in the cache shard.
  * @param shard to free
@@ -398,21 +411,21 @@ fiftyoneDegreesCacheNode* fiftyoneDegreesCacheGet(
 		// The node was found in the cache, so increment the active count and
 		// remove from the shard's linked list if required.
 		cacheIncremenetCheckAndRemove(node);
-		cache->hits++;
+		cacheIncrement(&cache->hits);
 	}
 	else {
 
 		// The key does not exist so load it.
 		node = cacheLoad(shard, key, exception);
-		cache->misses++;
+		cacheIncrement(&cache->misses);
 	}
 
+	assert(node == NULL || node->activeCount > 0);
+
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	FIFTYONE_DEGREES_MUTEX_UNLOCK(&shard->lock);
 #endif
 
-	assert(node == NULL || node->activeCount > 0);
-
 	return node;
 }
 
-- 
2.43.0


From 6430f5692c3d24335fa4d930bb6bc015cdf593aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:25 +0000
Subject: [PATCH 23/37] fix: read the totals of the memory tracker under the
 lock that guards them

---
 memory.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/memory.c b/memory.c
index e9006c6..3fcf32a 100644
--- a/memory.c
+++ b/memory.c
@@ -245,12 +245,28 @@ void fiftyoneDegreesMemoryTrackingFreeAligned(void* pointer) {
 	MemoryStandardFreeAligned(pointer);
 }
 
+/**
+ * Returns a total of the tracker, which other threads may be changing.
+ */
+static size_t getTotal(size_t *total) {
+	size_t value;
+	tryInit();
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+	FIFTYONE_DEGREES_MUTEX_LOCK(&state.lock);
+#endif
+	value = *total;
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+	FIFTYONE_DEGREES_MUTEX_UNLOCK(&state.lock);
+#endif
+	return value;
+}
+
 size_t fiftyoneDegreesMemoryTrackingGetMax() {
-	return state.max;
+	return getTotal(&state.max);
 }
 
 size_t fiftyoneDegreesMemoryTrackingGetAllocated() {
-	return state.allocated;
+	return getTotal(&state.allocated);
 }
 
 void fiftyoneDegreesMemoryTrackingReset() {
-- 
2.43.0


From 385243142af53545dbd2e6710950167408744958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:39 +0000
Subject: [PATCH 24/37] fix: looking at the required properties does not alter
 them

---
 RequiredPropertiesConfig.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/RequiredPropertiesConfig.cpp b/RequiredPropertiesConfig.cpp
index 3e7c1c2..25d565b 100644
--- a/RequiredPropertiesConfig.cpp
+++ b/RequiredPropertiesConfig.cpp
@@ -90,7 +90,6 @@ RequiredPropertiesConfig::~RequiredPropertiesConfig() {
 
 vector<string> RequiredPropertiesConfig::getProperties() const {
 	int i;
-	char *current;
 	vector<string> result;
 	if (conf.array != nullptr) {
 		for (i = 0; i < conf.count; i++) {
@@ -98,10 +97,17 @@ vector<string> RequiredPropertiesConfig::getProperties() const {
 		}
 	}
 	else if (conf.string != nullptr) {
-		current = strtok((char*)conf.string, ",");
-		while (current != NULL) {
-			result.insert(result.end(), current);
-			current = strtok(NULL, ",");
+		// The string is used by the engine so must not be altered.
+		const char *current = conf.string;
+		while (*current != '\0') {
+			const size_t length = strcspn(current, ",");
+			if (length > 0) {
+				result.push_back(string(current, length));
+			}
+			current += length;
+			if (*current == ',') {
+				current++;
+			}
 		}
 	}
 	return result;
@@ -110,7 +116,6 @@ vector<string> RequiredPropertiesConfig::getProperties() const {
 bool RequiredPropertiesConfig::containsProperty(
 	const char *property) const {
 	int i;
-	char *current;
 	if (conf.array != nullptr) {
 		for (i = 0; i < conf.count; i++) {
 			if (_stricmp(property, conf.array[i]) == 0) {
@@ -119,12 +124,10 @@ bool RequiredPropertiesConfig::containsProperty(
 		}
 	}
 	else if (conf.string != nullptr) {
-		current = strtok((char*)conf.string, ",");
-		while (current != NULL) {
-			if (_stricmp(property, current) == 0) {
+		for (const string &current : getProperties()) {
+			if (_stricmp(property, current.c_str()) == 0) {
 				return true;
 			}
-			current = strtok(NULL, ",");
 		}
 	}
 	return false;
-- 
2.43.0


From acd0910fad00a3a8a9637bb6d7f22062ac21f576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:21 +0000
Subject: [PATCH 25/37] fix: a cache node whose data could not be loaded is
 made available again

---
 cache.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/cache.c b/cache.c
index 6c85349..1eec603 100644
--- a/cache.c
+++ b/cache.c
@@ -239,15 +239,18 @@ static CacheNode *cacheGetNextFree(CacheShard *shard) {
 		assert(node->activeCount == 0);
 		cacheRemoveFromList(node);
 
-		// Remove the last result from the binary tree.
 		#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
 		countBefore = TreeCount(&shard->root);
 		#endif
-		TreeDelete(&node->tree);
-		#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
-		countAfter = TreeCount(&shard->root);
-		assert(countBefore - 1 == countAfter);
-		#endif
+		// Remove the last result from the binary tree. A node whose data could
+		// not be loaded is not in the tree.
+		if (node->tree.parent != &shard->root.empty) {
+			TreeDelete(&node->tree);
+			#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
+			countAfter = TreeCount(&shard->root);
+			assert(countBefore - 1 == countAfter);
+			#endif
+		}
 	}
 
 	// Set the pointers of the node to null indicating that the
@@ -286,6 +289,13 @@ static CacheNode* cacheLoad(
 			node->tree.key = shard->cache->hash(key);
 			TreeInsert(&node->tree);
 		}
+		else {
+			// The data was not loaded, so make the node available to be used
+			// for another key.
+			node->activeCount = 0;
+			cacheAddToHead(node);
+			node = NULL;
+		}
 	}
 	return node;
 }
-- 
2.43.0


From 7130764f6bd48f0a14c29f5c3190384f41adf8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:59 +0000
Subject: [PATCH 26/37] fix: choose a shard of the cache without a negative
 index

---
 cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache.c b/cache.c
index 1eec603..c430606 100644
--- a/cache.c
+++ b/cache.c
@@ -408,7 +408,7 @@ fiftyoneDegreesCacheNode* fiftyoneDegreesCacheGet(
 	fiftyoneDegreesException *exception) {
 	CacheNode *node;
 	int64_t keyHash = cache->hash(key);
-	CacheShard *shard = &cache->shards[abs((int)keyHash) % cache->concurrency];
+	CacheShard *shard = &cache->shards[(uint32_t)keyHash % cache->concurrency];
 
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	FIFTYONE_DEGREES_MUTEX_LOCK(&shard->lock);
-- 
2.43.0


From 22824488820c7ecea70a9e4c05574c9588b94ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:36 +0000
Subject: [PATCH 27/37] fix: cached collections neither keep nor cache items
 which were not loaded

---
 collection.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/collection.c b/collection.c
index d27ac9e..c7f7400 100644
--- a/collection.c
+++ b/collection.c
@@ -333,6 +333,11 @@ static void* getFromCache(
 			item->data = node->data;
 			ptr = item->data.ptr;
 		}
+		else {
+			// There is no data for the caller to release.
+			CacheRelease(node);
+			item->handle = NULL;
+		}
 	}
 	else {
 		item->data.used = 0;
@@ -372,17 +377,21 @@ static void loaderCache(
 
 		// If the item from the source collection has bytes then copy them into
 		// the cache node item ensuring sufficient memory is allocated first.
-		if (item.data.used > 0 &&
-			DataMalloc(data, item.data.allocated) != NULL) {
+		if (item.data.used > 0) {
+			if (DataMalloc(data, item.data.used) != NULL) {
 
-			// Copy the data from the collection into the cache.
-			if (memcpy(
-				data->ptr,
-				item.data.ptr,
-				item.data.used) == data->ptr) {
+				// Copy the data from the collection into the cache.
+				if (memcpy(
+					data->ptr,
+					item.data.ptr,
+					item.data.used) == data->ptr) {
 
-				// Set the number of used bytes to match the loaded item.
-				data->used = item.data.used;
+					// Set the number of used bytes to match the loaded item.
+					data->used = item.data.used;
+				}
+			}
+			else {
+				EXCEPTION_SET(INSUFFICIENT_MEMORY);
 			}
 		}
 
-- 
2.43.0


From 92870db9a038d109218dc78d876580d727ea7b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:54 +0000
Subject: [PATCH 28/37] fix: pseudo evidence is only added while there is
 capacity for it

---
 pseudoheader.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pseudoheader.c b/pseudoheader.c
index c2f14ec..9eb2fb4 100644
--- a/pseudoheader.c
+++ b/pseudoheader.c
@@ -174,9 +174,12 @@ fiftyoneDegreesPseudoHeadersAddEvidence(
     char* buffer = NULL;
     int charAdded;
     uint32_t i;
-    if (evidence != NULL && acceptedHeaders != NULL) {
+    if (evidence != NULL && evidence->pseudoEvidence != NULL &&
+        acceptedHeaders != NULL) {
         for (i = 0;
-            i < acceptedHeaders->count && EXCEPTION_OKAY;
+            i < acceptedHeaders->count && EXCEPTION_OKAY &&
+            evidence->pseudoEvidence->count <
+                evidence->pseudoEvidence->capacity;
             i++) {
             header = &acceptedHeaders->items[i];
             // Only add evidence for pseudo header
-- 
2.43.0


From f4e7424ba9053292cb548d106a28bd7e7173cce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:10 +0000
Subject: [PATCH 29/37] fix: reading YAML stays within the pairs and buffers
 provided

---
 yamlfile.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/yamlfile.c b/yamlfile.c
index 91d10e6..8e4549b 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -29,7 +29,7 @@ const size_t CONTROL_LENGTH = 3;
 typedef struct pair_state_t {
 	KeyValuePair* pairs; // array of key value evidence pairs
 	uint16_t size; // total available keyValuePairs
-	int16_t index; // current index being populated in the keyValuePairs
+	int index; // current index being populated in the keyValuePairs
 	char* current; // current pointer to character in the pair
 	char* end; // last pointer that is valid
 } PairState;
@@ -86,15 +86,24 @@ static char* readNext(FileState* fileState, StatusCode* status) {
 	return fileState->current;
 }
 
-// Sets the current and end pointers to the current key.
+// True if the current index is one of the available pairs.
+static bool isPair(PairState* state) {
+	return state->index >= 0 && state->index < state->size;
+}
+
+// Sets the current and end pointers to the current key. There is nothing to
+// set if there are no more pairs available.
 static void setCurrentKey(PairState* state) {
+	if (isPair(state) == false) return;
 	KeyValuePair* current = state->pairs + state->index;
 	state->current = current->key;
 	state->end = current->key + current->keyLength - 1;
 }
 
-// Sets the current and end pointers to the current value.
+// Sets the current and end pointers to the current value. There is nothing to
+// set if there are no more pairs available.
 static void setCurrentValue(PairState* state) {
+	if (isPair(state) == false) return;
 	KeyValuePair* current = state->pairs + state->index;
 	state->current = current->value;
 	state->end = current->value + current->valueLength - 1;
@@ -111,7 +120,9 @@ static void switchKeyValue(PairState* state) {
 // written is null terminated.
 static void nextPair(PairState* state) {
 	*state->current = '\0';
-	state->index++;
+	if (state->index < state->size) {
+		state->index++;
+	}
 	setCurrentKey(state);
 }
 
@@ -211,6 +222,8 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 				// If there was a quote earlier in the string and the last one
 				// is also a quote then remove the last quote.
 				if (fileState.quote > 0 && 
+					isPair(&pairState) &&
+					pairState.current > keyValuePairs[pairState.index].value &&
 					*(pairState.current - 1) == '\'') {
 					pairState.current--;
 				}
-- 
2.43.0


From 6da6c360659eafc4572e33b173dd31edd4dc79c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:25 +0000
Subject: [PATCH 30/37] fix: the last lines of a text file are always returned
 and nothing before the buffer is read

---
 textfile.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/textfile.c b/textfile.c
index 60fc7fe..670f261 100644
--- a/textfile.c
+++ b/textfile.c
@@ -79,7 +79,7 @@ void fiftyoneDegreesTextFileIterateWithLimit(
 		}
 		// Update end to the last line read
 		end = current + bufferRead;
-		if ((limit < 0 || counter < limit) && 
+		if ((limit < 0 || counter < limit) && end > buffer &&
 			(*(end - 1) != '\r' && *(end - 1) != '\n')) {
 			// If there isn't a new line or carriage return at the end
 			// we won't be able to determine the end of last line, so
@@ -91,7 +91,9 @@ void fiftyoneDegreesTextFileIterateWithLimit(
 		}
 		fclose(handle);
 
-		// Return any final lines held in the buffer.
+		// Return any final lines held in the buffer including those already
+		// there before the last read.
+		current = buffer;
 		while (current < end && 
 			(limit < 0 || counter < limit)) {
 			current = returnNextLine(buffer, end, buffer, state, callback);
-- 
2.43.0


From ee009e63ac0b567808170d08d93285987b957efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:52 +0000
Subject: [PATCH 31/37] fix: alias of a status code which does not exist

---
 fiftyone.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fiftyone.h b/fiftyone.h
index 9c73768..ab9577e 100644
--- a/fiftyone.h
+++ b/fiftyone.h
@@ -405,7 +405,6 @@ MAP_TYPE(KeyValuePair)
 #define COLLECTION_FILE_READ_FAIL FIFTYONE_DEGREES_STATUS_COLLECTION_FILE_READ_FAIL /**< Synonym for #FIFTYONE_DEGREES_STATUS_COLLECTION_FILE_READ_FAIL status code. */
 #define INCORRECT_IP_ADDRESS_FORMAT FIFTYONE_DEGREES_STATUS_INCORRECT_IP_ADDRESS_FORMAT /**< Synonym for #FIFTYONE_DEGREES_STATUS_INCORRECT_IP_ADDRESS_FORMAT status code. */
 #define TEMP_FILE_ERROR FIFTYONE_DEGREES_STATUS_TEMP_FILE_ERROR /**< Synonym for #FIFTYONE_DEGREES_STATUS_INCORRECT_IP_ADDRESS_FORMAT status code. */
-#define DATA_FILE_NEEDS_UPDATED FIFTYONE_DEGREES_STATUS_DATA_FILE_NEEDS_UPDATED /**< Synonym for #FIFTYONE_DEGREES_STATUS_DATA_FILE_NEEDS_UPDATED status code. */
 
 /**
  * @}
-- 
2.43.0


From 107b08c70b39f8d889f8c26e3cd44e7a82ccb9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:51 +0000
Subject: [PATCH 32/37] fix: a busy file has no status message

---
 status.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/status.c b/status.c
index fa30e0f..e3c6230 100644
--- a/status.c
+++ b/status.c
@@ -43,6 +43,8 @@ static StatusMessage messages[] = {
 	{ FILE_NOT_FOUND,
 		"The data file '%s' could not be found. Check the file path and that "
 		"the program has sufficient read permissions." },
+	{ FILE_BUSY,
+		"The data file '%s' is busy and could not be used." },
 	{ FILE_FAILURE,
 		"An unknown error occurred accessing the file '%s'. Check the file "
 		"path and that the program has sufficient read permissions." },
-- 
2.43.0


From b109bf51347b49ecb38cf6592946ca0c92b70f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:47 +0000
Subject: [PATCH 33/37] fix: alias of a macro which does not exist

---
 fiftyone.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fiftyone.h b/fiftyone.h
index ab9577e..6fa762c 100644
--- a/fiftyone.h
+++ b/fiftyone.h
@@ -362,7 +362,6 @@ MAP_TYPE(KeyValuePair)
 #define INTERLOCK_EXCHANGE FIFTYONE_DEGREES_INTERLOCK_EXCHANGE /**< Synonym for #FIFTYONE_DEGREES_INTERLOCK_EXCHANGE macro. */
 #define INTERLOCK_EXCHANGE_64 FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_64 /**< Synonym for #FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_64 macro. */
 #define INTERLOCK_EXCHANGE_PTR FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_PTR /**< Synonym for #FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_PTR macro. */
-#define INTERLOCK_EXCHANGE_PTR_DW FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_PTR_DW /**< Synonym for #FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_PTR_DW macro. */
 #define FLOAT_TO_NATIVE FIFTYONE_DEGREES_FLOAT_TO_NATIVE /**< Synonym for #FIFTYONE_DEGREES_FLOAT_TO_NATIVE macro. */
 #define NATIVE_TO_FLOAT FIFTYONE_DEGREES_NATIVE_TO_FLOAT /**< Synonym for #FIFTYONE_DEGREES_NATIVE_TO_FLOAT macro. */
 #define FLOAT_IS_EQUAL FIFTYONE_DEGREES_FLOAT_IS_EQUAL /**< Synonym for #FIFTYONE_DEGREES_FLOAT_IS_EQUAL macro. */
-- 
2.43.0


From 73bb6e8a8634836ec945d658a57b8d6b0efe47bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:46 +0000
Subject: [PATCH 34/37] fix: too many segments of an IP address overflow its
 bytes

---
 ip.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/ip.c b/ip.c
index aebc4ab..9ec764b 100644
--- a/ip.c
+++ b/ip.c
@@ -66,6 +66,22 @@ static byte getIpByte(int parsedValue) {
 	return (byte)parsedValue;
 }
 
+/*
+ * Adds a byte to the address, unless the address already has all the bytes
+ * there is space for because the string contains too many segments.
+ * @address The address being built
+ * @value The value of the byte to add
+ */
+static void addIpByte(EvidenceIpAddress *address, byte value) {
+	const int length = address->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ?
+		FIFTYONE_DEGREES_IPV4_LENGTH :
+		FIFTYONE_DEGREES_IPV6_LENGTH;
+	if (address->current < address->address + length) {
+		*address->current = value;
+		address->current++;
+	}
+}
+
 static void parseIpV6Segment(
 	EvidenceIpAddress *address,
 	const char *start,
@@ -75,8 +91,7 @@ static void parseIpV6Segment(
 	if (start > end) {
 		// This is an abbreviation, so fill it in.
 		for (i = 0; i < 16 - address->bytesPresent; i++) {
-			*address->current = (byte)0;
-			address->current++;
+			addIpByte(address, (byte)0);
 		}
 	}
 	else {
@@ -90,10 +105,8 @@ static void parseIpV6Segment(
 			if (i < 2) second[1 - i] = val;
 			else first[3 - i] = val;
 		}
-		*address->current = getIpByte((int)strtol(first, NULL, 16));
-		address->current++;
-		*address->current = getIpByte((int)strtol(second, NULL, 16));
-		address->current++;
+		addIpByte(address, getIpByte((int)strtol(first, NULL, 16)));
+		addIpByte(address, getIpByte((int)strtol(second, NULL, 16)));
 	}
 }
 
@@ -104,8 +117,7 @@ static void callbackIpAddressBuild(
 	const char *end) {
 	EvidenceIpAddress *address = (EvidenceIpAddress*)state;
 	if (segmentType == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4) {
-		*address->current = getIpByte(atoi(start));
-		address->current++;
+		addIpByte(address, getIpByte(atoi(start)));
 	}
 	else if (segmentType == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6) {
 		parseIpV6Segment(address, start, end);
-- 
2.43.0


From da01b65e9dd4dfa756f2d3511c22de97054ce57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:27 +0000
Subject: [PATCH 35/37] fix: the block of an IP address is freed, not its bytes

---
 ip.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ip.c b/ip.c
index 9ec764b..c935696 100644
--- a/ip.c
+++ b/ip.c
@@ -214,7 +214,9 @@ void fiftyoneDegreesIpFreeAddresses(
 	while (current != NULL) {
 		prev = current;
 		current = current->next;
-		free(prev->address);
+		// The bytes of the address are part of the same allocation as the
+		// structure.
+		free(prev);
 	}
 }
 
-- 
2.43.0


From 327a89fb97cb4fc2f1f689c48e1e255e6872e93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:10 +0000
Subject: [PATCH 36/37] fix: bytes an IP address does not give are not
 initialised

---
 ip.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ip.c b/ip.c
index c935696..9d756be 100644
--- a/ip.c
+++ b/ip.c
@@ -243,6 +243,13 @@ fiftyoneDegreesEvidenceIpAddress* fiftyoneDegreesIpParseAddress(
 		address->current = (byte*)(address + 1);
 		address->bytesPresent = (byte)count;
 		address->type = type;
+		// Any bytes which are missing from the string are zero.
+		memset(
+			address->address,
+			0,
+			type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ?
+			FIFTYONE_DEGREES_IPV4_LENGTH :
+			FIFTYONE_DEGREES_IPV6_LENGTH);
 		// Add the bytes from the source value and get the type of address.
 		iterateIpAddress(
 			start,
-- 
2.43.0


From 440a81ace8c0bc8353b9a2271b247cdfad0a80a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:36 +0000
Subject: [PATCH 37/37] fix: the header of a collection that could not be read
 is not initialised

---
 collection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collection.c b/collection.c
index c7f7400..6702dd4 100644
--- a/collection.c
+++ b/collection.c
@@ -861,6 +861,8 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromFile(
 	}
 	else {
 		header.startPosition = 0;
+		header.length = 0;
+		header.count = 0;
 	}
 
 	return header;
-- 
2.43.0

