From aa4bec3db3bd238cdb6e84029992eff404a57bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:27 +0000
Subject: [PATCH 01/26] fix: ped_geometry_map: treat the sector as relative to
 the source region

The sector argument is an offset inside src (the function adds src->start
to it), but was tested against src's absolute bounds, so mapping failed
for any region not starting near sector 0; and an address one past the
end of dst was accepted.
---
 libparted/cs/geom.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libparted/cs/geom.c b/libparted/cs/geom.c
index 99280ac..ea030cc 100644
--- a/libparted/cs/geom.c
+++ b/libparted/cs/geom.c
@@ -472,13 +472,13 @@ ped_geometry_map (const PedGeometry* dst, const PedGeometry* src,
 	PED_ASSERT (dst != NULL);
 	PED_ASSERT (src != NULL);
 
-	if (!ped_geometry_test_sector_inside (src, sector))
+	if (sector < 0 || sector >= src->length)
 		return -1;
 	if (dst->dev != src->dev)
 		return -1;
 
 	result = src->start + sector - dst->start;
-	if (result < 0 || result > dst->length)
+	if (result < 0 || result >= dst->length)
 		return -1;
 
 	return result;
-- 
2.43.0


From 87e40170de36a1ebf0fadf894aebc6f157334f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:29 +0000
Subject: [PATCH 02/26] fix: ped_geometry_check: check exactly the failed
 group, including its last granule

The individual re-read loop ran to group + count (past the range to be
checked) and skipped the last granule, so a bad last sector looped forever
and a transient error could report a position outside the region.
---
 libparted/cs/geom.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libparted/cs/geom.c b/libparted/cs/geom.c
index ea030cc..998de25 100644
--- a/libparted/cs/geom.c
+++ b/libparted/cs/geom.c
@@ -432,8 +432,10 @@ retry:
 
 found_error:
 	ped_exception_catch();
-	for (i = group; i + granularity < group + count; i += granularity) {
-		if (!ped_geometry_read (geom, buffer, i, granularity)) {
+	for (i = group; i < group + read_len; i += granularity) {
+		if (!ped_geometry_read (geom, buffer, i,
+					PED_MIN (granularity,
+						 group + read_len - i))) {
 			ped_exception_catch();
 			ped_exception_leave_all();
 			return i;
-- 
2.43.0


From d1d9041ca83c575a1ba441eac10e2b7b5dd9a1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:59 +0000
Subject: [PATCH 03/26] fix: ped_disk_set_partition_geom: restore the region
 before recomputing free space

On failure the old region was put back only after leaving update mode,
so the free space areas were computed from the rejected region.
---
 libparted/disk.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libparted/disk.c b/libparted/disk.c
index 0db7b5c..274a15f 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -2338,6 +2338,8 @@ ped_disk_set_partition_geom (PedDisk* disk, PedPartition* part,
 	return 1;
 
 error_pop_update_mode:
+	/* before leaving update mode, which recomputes the free space */
+	part->geom = old_geom;
 	_disk_pop_update_mode (disk);
 error:
 	ped_constraint_destroy (overlap_constraint);
-- 
2.43.0


From f0fe77620855ae87f5b2cb0c4636ea2b8e22710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:59 +0000
Subject: [PATCH 04/26] fix: ped_disk_maximize_partition: leave the partition
 alone on failure

The failing ped_disk_set_partition_geom already leaves the region unchanged;
re-applying the old region through the label's alignment could move a
partition that is not aligned.
---
 libparted/disk.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/libparted/disk.c b/libparted/disk.c
index 274a15f..ba093cc 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -2358,13 +2358,11 @@ int
 ped_disk_maximize_partition (PedDisk* disk, PedPartition* part,
 			     const PedConstraint* constraint)
 {
-	PedGeometry	old_geom;
 	PedSector	global_min_start;
 	PedSector	global_max_end;
 	PedSector	new_start;
 	PedSector	new_end;
 	PedPartition*	ext_part = ped_disk_extended_partition (disk);
-	PedConstraint*	constraint_any;
 
 	PED_ASSERT (disk != NULL);
 	PED_ASSERT (part != NULL);
@@ -2378,8 +2376,6 @@ ped_disk_maximize_partition (PedDisk* disk, PedPartition* part,
 		global_max_end = disk->dev->length - 1;
 	}
 
-	old_geom = part->geom;
-
 	if (!_disk_push_update_mode (disk))
 		return 0;
 
@@ -2402,10 +2398,7 @@ ped_disk_maximize_partition (PedDisk* disk, PedPartition* part,
 	return 1;
 
 error:
-	constraint_any = ped_constraint_any (disk->dev);
-	ped_disk_set_partition_geom (disk, part, constraint_any,
-				     old_geom.start, old_geom.end);
-	ped_constraint_destroy (constraint_any);
+	/* ped_disk_set_partition_geom has left PART as it was */
 	_disk_pop_update_mode (disk);
 	return 0;
 }
-- 
2.43.0


From be16a3eb3042079655d7eeeab15e93b7ff4a2a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:14 +0000
Subject: [PATCH 05/26] fix: align partitions added to a fresh, not yet
 committed label

Alignment was skipped whenever the label still had to be clobbered, not only
while reading a table, so partitions added to a fresh label could overlap each
other and the label's own metadata.
---
 libparted/disk.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libparted/disk.c b/libparted/disk.c
index ba093cc..e7f9f65 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -64,6 +64,12 @@ static int _disk_raw_insert_after (PedDisk* disk, PedPartition* loc,
 static int _disk_raw_remove (PedDisk* disk, PedPartition* part);
 static int _disk_raw_add (PedDisk* disk, PedPartition* part);
 
+/* The value of PedDisk.needs_clobber while ped_disk_new reads the table.  A fresh
+ * table, not yet committed, also needs clobbering, but its partitions must be
+ * aligned: that is what keeps them apart from each other and from the metadata.
+ */
+#define READING_TABLE	2
+
 static PedDiskType*	disk_types = NULL;
 
 void
@@ -198,6 +204,7 @@ ped_disk_new (PedDevice* dev)
 	disk = ped_disk_new_fresh (dev, type);
 	if (!disk)
 		goto error_close_dev;
+	disk->needs_clobber = READING_TABLE;
 	if (!type->ops->read (disk))
 		goto error_destroy_disk;
 	disk->needs_clobber = 0;
@@ -951,7 +958,7 @@ _partition_align (PedPartition* part, const PedConstraint* constraint)
 	PED_ASSERT (disk_type->ops->partition_align != NULL);
 	PED_ASSERT (part->disk->update_mode);
 
-	if (part->disk->needs_clobber)
+	if (part->disk->needs_clobber == READING_TABLE)
 		return 1; /* do not attempt to align partitions while reading them */
 	return disk_type->ops->partition_align (part, constraint);
 }
-- 
2.43.0


From b40288fd16bdab09b246d5b940c6225049e0274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:22 +0000
Subject: [PATCH 06/26] fix: gpt_duplicate: keep the location of the backup
 table

---
 libparted/labels/gpt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 780fb70..ce6d3f4 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -629,6 +629,7 @@ gpt_duplicate (const PedDisk *disk)
   new_disk_data->entry_count = old_disk_data->entry_count;
   new_disk_data->uuid = old_disk_data->uuid;
   new_disk_data->pmbr_boot = old_disk_data->pmbr_boot;
+  new_disk_data->AlternateLBA = old_disk_data->AlternateLBA;
   return new_disk;
 }
 
-- 
2.43.0


From 911dbb515e1b8a7ec387d153a56455f6e5bd665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:14 +0000
Subject: [PATCH 07/26] fix: gpt: compute the entry array size in size_t

---
 libparted/labels/gpt.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index ce6d3f4..3e177b3 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -650,7 +650,8 @@ gpt_read_PE_array (PedDisk const *disk, GuidPartitionTableHeader_t const *gpt,
                    size_t *ptes_bytes)
 {
   uint32_t p_ent_size = PED_LE32_TO_CPU (gpt->SizeOfPartitionEntry);
-  *ptes_bytes = p_ent_size * PED_LE32_TO_CPU(gpt->NumberOfPartitionEntries);
+  *ptes_bytes = (size_t) p_ent_size
+                * PED_LE32_TO_CPU(gpt->NumberOfPartitionEntries);
   size_t ptes_sectors = ped_div_round_up (*ptes_bytes,
                                           disk->dev->sector_size);
 
@@ -757,7 +758,7 @@ _header_is_valid (PedDisk const *disk, GuidPartitionTableHeader_t *gpt,
 static PedSector
 _ptes_sectors(PedDisk const *disk, GuidPartitionTableHeader_t const *gpt)
 {
-  size_t ptes_bytes = PED_LE32_TO_CPU (gpt->SizeOfPartitionEntry) *
+  size_t ptes_bytes = (size_t) PED_LE32_TO_CPU (gpt->SizeOfPartitionEntry) *
                       PED_LE32_TO_CPU (gpt->NumberOfPartitionEntries);
   /* Minimum amount of space reserved is 128 128 byte entries */
   if (ptes_bytes < 128*128)
@@ -1097,7 +1098,7 @@ gpt_read (PedDisk *disk)
   for (i = 0; i < gpt_disk_data->entry_count; i++)
     {
       GuidPartitionEntry_t *pte
-        = (GuidPartitionEntry_t *) ((char *) ptes + i * p_ent_size);
+        = (GuidPartitionEntry_t *) ((char *) ptes + (size_t) i * p_ent_size);
       PedPartition *part;
 
       if (!guid_cmp (pte->PartitionTypeGuid, UNUSED_ENTRY_GUID))
-- 
2.43.0


From 679904eeb26ee7234ee1a8de1316a345f6aaf084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:14 +0000
Subject: [PATCH 08/26] fix: gpt: reject an unsupported entry count instead of
 aborting

---
 libparted/labels/gpt.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 3e177b3..7c7fd91 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -798,6 +798,11 @@ _parse_header (PedDisk *disk, const GuidPartitionTableHeader_t *gpt,
     }
 #endif
 
+  /* The entry count comes from the disk: refuse what we cannot handle.  */
+  if (PED_LE32_TO_CPU (gpt->NumberOfPartitionEntries) < 1
+      || PED_LE32_TO_CPU (gpt->NumberOfPartitionEntries) > 8192)
+    return 0;
+
   first_usable = PED_LE64_TO_CPU (gpt->FirstUsableLBA);
   last_usable = PED_LE64_TO_CPU (gpt->LastUsableLBA);
 
@@ -848,8 +853,6 @@ _parse_header (PedDisk *disk, const GuidPartitionTableHeader_t *gpt,
 
   gpt_disk_data->entry_count
     = PED_LE32_TO_CPU (gpt->NumberOfPartitionEntries);
-  PED_ASSERT (gpt_disk_data->entry_count > 0);
-  PED_ASSERT (gpt_disk_data->entry_count <= 8192);
 
   gpt_disk_data->uuid = gpt->DiskGUID;
 
-- 
2.43.0


From 303ce508003293155652a01d2f68cb3e088bd08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:36 +0000
Subject: [PATCH 09/26] fix: gpt: reject a usable range that ends just past the
 device

---
 libparted/labels/gpt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 7c7fd91..d9f72bc 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -817,7 +817,7 @@ _parse_header (PedDisk *disk, const GuidPartitionTableHeader_t *gpt,
   last_usable_if_grown = disk->dev->length - 2 - _ptes_sectors(disk, gpt);
 
   if (last_usable <= first_usable
-      || disk->dev->length < last_usable)
+      || disk->dev->length <= last_usable)
     return 0;
 
   if (last_usable_if_grown <= first_usable
-- 
2.43.0


From 0e67b2a0d5b50822f93ee65291ab514955bd982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:36 +0000
Subject: [PATCH 10/26] fix: gpt: look for the backup header in the last
 sector, not behind it

---
 libparted/labels/gpt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index d9f72bc..45f7066 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -1853,7 +1853,7 @@ gpt_get_max_supported_partition_count (const PedDisk *disk, int *max_n)
 
   if (ped_device_read (disk->dev, pth_raw, 1, GPT_HEADER_SECTORS)
       || ped_device_read (disk->dev, pth_raw,
-                          disk->dev->length, GPT_HEADER_SECTORS))
+                          disk->dev->length - 1, GPT_HEADER_SECTORS))
     pth = pth_new_from_raw (disk->dev, pth_raw);
   free (pth_raw);
 
-- 
2.43.0


From df9288774443260e3a46ea8a15c465be78cd13df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:22 +0000
Subject: [PATCH 11/26] fix: gpt: clear the stored name before writing a new
 one

Setting a shorter name left the tail of the old one behind the
terminating NUL.  It was written to disk and, when the tail could not be
converted to the locale's character set, made the new name unreadable.
---
 libparted/labels/gpt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 45f7066..30f05ce 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -1717,6 +1717,8 @@ gpt_partition_set_name (PedPartition *part, const char *name)
   char *outbuff = (char *)&gpt_part_data->name;
   size_t inbuffsize = strlen (inbuff) + 1;
   size_t outbuffsize = 72;
+  /* Leave nothing of a longer old name behind the new one. */
+  memset (gpt_part_data->name, 0, sizeof gpt_part_data->name);
   if (iconv (conv, &inbuff, &inbuffsize, &outbuff, &outbuffsize) == -1)
     goto err;
   iconv_close (conv);
-- 
2.43.0


From 29c4254685812c244056d682ab5ab205bbc4106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:23 +0000
Subject: [PATCH 12/26] fix: msdos: type id 0 is no alternative type id

Flags without an alternative type id all read as set for a partition
whose type id had been set to 0.
---
 libparted/labels/dos.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index e6a0105..ae33e61 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -149,6 +149,15 @@ dos_find_flag_id_mapping (PedPartitionFlag flag)
     return NULL;
 }
 
+/**
+ * Check whether type_id is (one of) the type id(s) of the flag mapping p.
+ */
+static bool
+dos_type_id_matches_flag(unsigned char type_id, const struct flag_id_mapping_t* p)
+{
+    return type_id == p->type_id || (p->alt_type_id && type_id == p->alt_type_id);
+}
+
 /**
  * Check whether the type_id supports the hidden flag. Returns true for both hidden and
  * non-hidden id.
@@ -1631,7 +1640,7 @@ msdos_partition_set_flag (PedPartition* part,
 
 		if (state) {
 			dos_data->system = p->type_id;
-		} else if (dos_data->system == p->type_id || dos_data->system == p->alt_type_id) {
+		} else if (dos_type_id_matches_flag (dos_data->system, p)) {
 			// Clear the type so that fs_type will be used to return it to the default
 			dos_data->system = PARTITION_LINUX;
 			return ped_partition_set_system (part, part->fs_type);
@@ -1683,7 +1692,7 @@ msdos_partition_get_flag (const PedPartition* part, PedPartitionFlag flag)
 
 	const struct flag_id_mapping_t* p = dos_find_flag_id_mapping (flag);
 	if (p)
-	    return dos_data->system == p->type_id || dos_data->system == p->alt_type_id;
+	    return dos_type_id_matches_flag (dos_data->system, p);
 
 	switch (flag) {
 	case PED_PARTITION_HIDDEN:
-- 
2.43.0


From 021c4962a609ccf2a94b56140327639160379b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:23 +0000
Subject: [PATCH 13/26] fix: msdos: change the lba flag of hidden FAT
 partitions

The lba flag is available for the hidden FAT16 and FAT32 type ids, but
setting or clearing it reported success without changing the type id.
---
 libparted/labels/dos.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index ae33e61..141e1b7 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -297,10 +297,18 @@ dos_type_id_set_lba(unsigned char* type_id, bool state)
 		*type_id = PARTITION_FAT16_LBA;
 		break;
 
+	    case PARTITION_FAT16_H:
+		*type_id = PARTITION_FAT16_LBA_H;
+		break;
+
 	    case PARTITION_FAT32:
 		*type_id = PARTITION_FAT32_LBA;
 		break;
 
+	    case PARTITION_FAT32_H:
+		*type_id = PARTITION_FAT32_LBA_H;
+		break;
+
 	    case PARTITION_DOS_EXT:
 		*type_id = PARTITION_EXT_LBA;
 		break;
@@ -314,10 +322,18 @@ dos_type_id_set_lba(unsigned char* type_id, bool state)
 		*type_id = PARTITION_FAT16;
 		break;
 
+	    case PARTITION_FAT16_LBA_H:
+		*type_id = PARTITION_FAT16_H;
+		break;
+
 	    case PARTITION_FAT32_LBA:
 		*type_id = PARTITION_FAT32;
 		break;
 
+	    case PARTITION_FAT32_LBA_H:
+		*type_id = PARTITION_FAT32_H;
+		break;
+
 	    case PARTITION_EXT_LBA:
 		*type_id = PARTITION_DOS_EXT;
 		break;
-- 
2.43.0


From d4e9ce024d63771ad080fa36c4184cc18976f4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:23 +0000
Subject: [PATCH 14/26] fix: msdos: do not hide an extended partition

Setting the hidden flag gave an extended partition of type 0x05 the type
id 0x15, which is not read as an extended partition: all its logical
partitions were lost with the next read of the table.
---
 libparted/labels/dos.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 141e1b7..83d64e7 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1667,6 +1667,10 @@ msdos_partition_set_flag (PedPartition* part,
 	switch (flag) {
 	case PED_PARTITION_HIDDEN:
 	{
+		/* a hidden one would not be read as an extended partition */
+		if (part->type & PED_PARTITION_EXTENDED)
+			return 0;
+
 		return dos_type_id_set_hidden(&dos_data->system, state);
 	}
 
@@ -1736,7 +1740,8 @@ msdos_partition_is_flag_available (const PedPartition* part,
 
 	switch (flag) {
 	case PED_PARTITION_HIDDEN:
-		return dos_type_id_supports_hidden(dos_data->system);
+		return part->type != PED_PARTITION_EXTENDED
+		       && dos_type_id_supports_hidden(dos_data->system);
 
 	case PED_PARTITION_LBA:
 		return dos_type_id_supports_lba(dos_data->system);
-- 
2.43.0


From 8c668c0438e2e2ed46d76717bbaeebf6f826f43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:01 +0000
Subject: [PATCH 15/26] fix: msdos: do not follow extended partition tables
 forever

A chain of extended partition tables without partitions that links back
to an earlier table was followed until the stack overflowed.  Stop after
MAX_EXT_TABLES tables.
---
 libparted/labels/dos.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 83d64e7..ff69a60 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -353,6 +353,11 @@ dos_type_id_set_lba(unsigned char* type_id, bool state)
 #define MAX_CHS_CYLINDER	1021
 #define MAX_TOTAL_PART		64
 
+/* The number of extended partition tables that are read.  Only a disk whose
+ * tables link back to earlier ones has more.
+ */
+#define MAX_EXT_TABLES		256
+
 typedef struct _DosRawPartition		DosRawPartition;
 typedef struct _DosRawTable		DosRawTable;
 
@@ -395,6 +400,7 @@ typedef struct {
 
 typedef struct {
         int             cylinder_alignment;
+        int             ext_tables;	/* extended tables read so far */
 } DosDiskData;
 
 typedef struct {
@@ -587,6 +593,7 @@ msdos_alloc (const PedDevice* dev)
                         return NULL;
                 }
                 disk_specific->cylinder_alignment = 1;
+                disk_specific->ext_tables = 0;
                 disk->disk_specific = disk_specific;
         }
 
@@ -1167,6 +1174,20 @@ read_table (PedDisk* disk, PedSector sector, int is_extended_table)
 	PED_ASSERT (disk->dev != NULL);
 
 	void *label = NULL;
+	if (is_extended_table
+	    && ++((DosDiskData *) disk->disk_specific)->ext_tables
+	       > MAX_EXT_TABLES) {
+		if (ped_exception_throw (
+			PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_IGNORE_CANCEL,
+			_("Invalid partition table - recursive "
+			"partition on %s."),
+			disk->dev->path)
+				!= PED_EXCEPTION_IGNORE)
+			goto error;
+		return 1;	/* avoid infinite recursion */
+	}
+
 	if (!ptt_read_sector (disk->dev, sector, &label))
 		goto error;
 
@@ -1286,6 +1307,7 @@ msdos_read (PedDisk* disk)
 	PED_ASSERT (disk->dev != NULL);
 
 	ped_disk_delete_all (disk);
+	((DosDiskData *) disk->disk_specific)->ext_tables = 0;
 	if (!read_table (disk, 0, 0))
 		return 0;
 
-- 
2.43.0


From 7e263d3fd91af2cb639035965ca03fea2ebdf4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:01 +0000
Subject: [PATCH 16/26] fix: msdos: write a whole sector for an empty extended
 table

The table was written from a 512-byte buffer, which is too small for
larger sectors: what followed it on the stack went to the disk.  When the
sector could not be read, the buffer was not initialized either.
---
 libparted/labels/dos.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index ff69a60..082d6c3 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1441,19 +1441,21 @@ write_ext_table (const PedDisk* disk,
 static int
 write_empty_table (const PedDisk* disk, PedSector sector)
 {
-	DosRawTable		table;
+	DosRawTable*		table;
 	void*			table_sector;
 
 	PED_ASSERT (disk != NULL);
 
-	if (ptt_read_sector (disk->dev, sector, &table_sector)) {
-		memcpy (&table, table_sector, sizeof (table));
-		free(table_sector);
-	}
-	memset (&(table.partitions), 0, sizeof (table.partitions));
-	table.magic = PED_CPU_TO_LE16 (MSDOS_MAGIC);
+	if (!ptt_read_sector (disk->dev, sector, &table_sector))
+		return 0;
+
+	table = table_sector;
+	memset (&(table->partitions), 0, sizeof (table->partitions));
+	table->magic = PED_CPU_TO_LE16 (MSDOS_MAGIC);
 
-	return ped_device_write (disk->dev, (void*) &table, sector, 1);
+	int write_ok = ped_device_write (disk->dev, table_sector, sector, 1);
+	free (table_sector);
+	return write_ok;
 }
 
 /* Find the first logical partition, and write the partition table for it.
-- 
2.43.0


From e4b267c711a7f7611b23694f7e1bad96e769683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:01 +0000
Subject: [PATCH 17/26] fix: msdos: keep the disk identifier when adding boot
 code

A table without boot code lost its disk identifier with the next write,
and with it every PARTUUID that is derived from the identifier.
---
 libparted/labels/dos.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 082d6c3..b845479 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1493,7 +1493,7 @@ msdos_write (const PedDisk* disk)
 	DosRawTable *table = (DosRawTable *) s0;
 
 	if (!table->boot_code[0]) {
-		memset (table, 0, 512);
+		memset (table->boot_code, 0, sizeof (table->boot_code));
 		memcpy (table->boot_code, MBR_BOOT_CODE, sizeof (MBR_BOOT_CODE));
 	}
 
-- 
2.43.0


From df1ca8c813006d34106668e282320fab5448364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:44 +0000
Subject: [PATCH 18/26] fix: ped_file_system_clobber: clear the end of the
 region, not past the device

---
 libparted/fs/r/filesys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/fs/r/filesys.c b/libparted/fs/r/filesys.c
index 856238c..3055966 100644
--- a/libparted/fs/r/filesys.c
+++ b/libparted/fs/r/filesys.c
@@ -232,7 +232,7 @@ ped_file_system_clobber (PedGeometry* geom)
   int ok = (len <= 5
 	    ? ptt_geom_clear_sectors (geom, 0, len)
 	    : (ptt_geom_clear_sectors (geom, 0, 3)
-	       && ptt_geom_clear_sectors (geom, geom->dev->length - 2, 2)));
+	       && ptt_geom_clear_sectors (geom, len - 2, 2)));
 
   ped_device_close (geom->dev);
   return !!ok;
-- 
2.43.0


From 608f16edfc63fe3c3a2aa37970cfa2456415d92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:36 +0000
Subject: [PATCH 19/26] fix: ped_unit_parse: remove every space from the text

strip_string skipped a character after each removal and left the tail
duplicated, so that "10  s" lost its unit.
---
 libparted/unit.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libparted/unit.c b/libparted/unit.c
index a63b98d..7b5d113 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -322,15 +322,13 @@ ped_unit_parse (const char* str, const PedDevice* dev, PedSector *sector,
 static void
 strip_string (char* str)
 {
-	int i;
+	int i, j = 0;
 
 	for (i = 0; str[i] != 0; i++) {
-		if (isspace (str[i])) {
-			int j;
-			for (j = i + 1; str[j] != 0; j++)
-				str[j - 1] = str[j];
-		}
+		if (!isspace (str[i]))
+			str[j++] = str[i];
 	}
+	str[j] = 0;
 }
 
 
-- 
2.43.0


From 159c500ad1a967d11eb200b144ae0705e289eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:50 +0000
Subject: [PATCH 20/26] fix: parse_chs: refuse negative cylinder, head and
 sector numbers

A number that overflowed an int (4294967295,0,5) passed the limits and
led to a negative sector and a failed assertion.
---
 libparted/unit.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libparted/unit.c b/libparted/unit.c
index 7b5d113..3adc07e 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -386,14 +386,14 @@ parse_chs (const char* str, const PedDevice* dev, PedSector* sector,
 		goto error_free_copy;
 	}
 
-	if (chs.heads >= dev->bios_geom.heads) {
+	if (chs.heads < 0 || chs.heads >= dev->bios_geom.heads) {
 		ped_exception_throw (
 				PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 				_("The maximum head value is %d."),
 				dev->bios_geom.heads - 1);
 		goto error_free_copy;
 	}
-	if (chs.sectors >= dev->bios_geom.sectors) {
+	if (chs.sectors < 0 || chs.sectors >= dev->bios_geom.sectors) {
 		ped_exception_throw (
 				PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 				_("The maximum sector value is %d."),
@@ -405,7 +405,7 @@ parse_chs (const char* str, const PedDevice* dev, PedSector* sector,
 		+ chs.heads * dev->bios_geom.sectors
 		+ chs.sectors;
 
-	if (*sector >= dev->length) {
+	if (chs.cylinders < 0 || *sector >= dev->length) {
 		ped_exception_throw (
 				PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 				_("The location %s is outside of the "
-- 
2.43.0


From 23a7efa29425cdf45c037040210760df3a5d8df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:50 +0000
Subject: [PATCH 21/26] fix: ped_unit_parse_custom: refuse locations too large
 for a sector number

The conversion of an out-of-range double is undefined; in practice a huge
location was taken for sector 0.
---
 libparted/unit.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libparted/unit.c b/libparted/unit.c
index 3adc07e..58281a1 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -502,7 +502,7 @@ ped_unit_parse_custom (const char* str, const PedDevice* dev, PedUnit unit,
 {
 	char*     copy;
 	char*     suffix;
-	double    num;
+	double    num, pos;
 	long long unit_size;
 	PedSector radius;
 
@@ -551,7 +551,17 @@ ped_unit_parse_custom (const char* str, const PedDevice* dev, PedUnit unit,
 				radius = 0;
 	}
 
-	*sector = num * unit_size / dev->sector_size;
+	pos = num * unit_size / dev->sector_size;
+	/* too large for a PedSector: outside of any device */
+	if (!(-0x1p62 < pos && pos < 0x1p62)) {
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+			_("The location %s is outside of the "
+			  "device %s."),
+			str, dev->path);
+		goto error_free_copy;
+	}
+	*sector = pos;
 	/* negative numbers count from the end */
 	if (copy[0] == '-')
 		*sector += dev->length;
-- 
2.43.0


From e8f0ab30006d67f0767214eb6035d1d789c38360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:00 +0000
Subject: [PATCH 22/26] fix: linux: an unanswered error on the last odd sector
 is a failure

_read_lastoddsector and _write_lastoddsector reported success when the
exception was left unhandled.
---
 libparted/arch/linux.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index ccbba86..426a26d 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1868,10 +1868,10 @@ retry:
                         _("%s during read on %s"),
                         strerror (errno), dev->path);
 
-                if (opt == PED_EXCEPTION_CANCEL)
-                        return 0;
                 if (opt == PED_EXCEPTION_RETRY)
                         goto retry;
+                if (opt != PED_EXCEPTION_IGNORE)
+                        return 0;
         }
 
         return 1;
@@ -2000,10 +2000,10 @@ retry:
                         _("%s during write on %s"),
                         strerror (errno), dev->path);
 
-                if (opt == PED_EXCEPTION_CANCEL)
-                        return 0;
                 if (opt == PED_EXCEPTION_RETRY)
                         goto retry;
+                if (opt != PED_EXCEPTION_IGNORE)
+                        return 0;
         }
 
         return 1;
-- 
2.43.0


From 483a51512dd9dfb55c6afd8b5712c0db766ea1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:00 +0000
Subject: [PATCH 23/26] fix: linux_read: use the sector size for the last odd
 sector's place

---
 libparted/arch/linux.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 426a26d..9f7b1b7 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1896,7 +1896,8 @@ linux_read (const PedDevice* dev, void* buffer, PedSector start,
                     && start + count - 1 == dev->length - 1)
                         return ped_device_read (dev, buffer, start, count - 1)
                                 && _read_lastoddsector (
-                                        dev, (char *) buffer + (count-1) * 512);
+                                        dev, (char *) buffer
+                                             + (count-1) * dev->sector_size);
         }
         while (1) {
                 if (_device_seek (dev, start))
-- 
2.43.0


From 98eb8db69e189b1f081784350e636062fd691b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:00 +0000
Subject: [PATCH 24/26] fix: linux_check: do not overrun the buffer, stop at
 end of file

The staging buffer was sized for 512-byte sectors, end of file made it
loop forever, and short reads overwrote the start of the buffer and
shifted later sectors.
---
 libparted/arch/linux.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 9f7b1b7..601b3f3 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -2126,8 +2126,9 @@ static PedSector
 linux_check (PedDevice* dev, void* buffer, PedSector start, PedSector count)
 {
         LinuxSpecific*  arch_specific = LINUX_SPECIFIC (dev);
-        PedSector       done = 0;
-        int             status;
+        ssize_t         status;
+        size_t          length;
+        size_t          n_read = 0;
         void*           diobuf;
 
         PED_ASSERT(dev != NULL);
@@ -2135,21 +2136,20 @@ linux_check (PedDevice* dev, void* buffer, PedSector start, PedSector count)
         if (!_device_seek (dev, start))
                 return 0;
 
-        if (posix_memalign(&diobuf, PED_SECTOR_SIZE_DEFAULT,
-                           count * PED_SECTOR_SIZE_DEFAULT) != 0)
+        length = count * dev->sector_size;
+        if (posix_memalign(&diobuf, dev->sector_size, length) != 0)
                 return 0;
 
-        for (done = 0; done < count; done += status / dev->sector_size) {
-                status = read (arch_specific->fd, diobuf,
-                               (size_t) ((count-done) * dev->sector_size));
-                if (status > 0)
-                        memcpy(buffer, diobuf, status);
-                if (status < 0)
+        while (n_read < length) {
+                status = read (arch_specific->fd, diobuf, length - n_read);
+                if (status <= 0)
                         break;
+                memcpy((char *) buffer + n_read, diobuf, status);
+                n_read += status;
         }
         free(diobuf);
 
-        return done;
+        return n_read / dev->sector_size;
 }
 
 static int
-- 
2.43.0


From 6ae6c5193f2953a980188a17c183ea34ac83f5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:49 +0000
Subject: [PATCH 25/26] fix: json: pass characters to the ctype functions as
 unsigned char

---
 parted/jsonwrt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parted/jsonwrt.c b/parted/jsonwrt.c
index d562133..335b7da 100644
--- a/parted/jsonwrt.c
+++ b/parted/jsonwrt.c
@@ -34,7 +34,7 @@ static void fputs_quoted_case_json(const char *data, FILE *out, int dir)
 	fputc('"', out);
 	for (p = data; p && *p; p++) {
 
-		const unsigned int c = (unsigned int) *p;
+		const unsigned int c = (unsigned char) *p;
 
 		/* From http://www.json.org
 		 *
-- 
2.43.0


From da7561882937c0019a8294bc9be203091b018b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:49 +0000
Subject: [PATCH 26/26] fix: json: closing a nested value does not close the
 root

---
 parted/jsonwrt.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/parted/jsonwrt.c b/parted/jsonwrt.c
index 335b7da..ec66868 100644
--- a/parted/jsonwrt.c
+++ b/parted/jsonwrt.c
@@ -150,12 +150,6 @@ void ul_jsonwrt_open(struct ul_jsonwrt *fmt, const char *name, int type)
 
 void ul_jsonwrt_close(struct ul_jsonwrt *fmt, int type)
 {
-	if (fmt->indent == 1) {
-		fputs("\n}\n", fmt->out);
-		fmt->indent--;
-		fmt->after_close = 1;
-		return;
-	}
 	assert(fmt->indent > 0);
 
 	switch (type) {
@@ -163,13 +157,13 @@ void ul_jsonwrt_close(struct ul_jsonwrt *fmt, int type)
 		fmt->indent--;
 		fputc('\n', fmt->out);
 		ul_jsonwrt_indent(fmt);
-		fputs("}", fmt->out);
+		fputs(fmt->indent ? "}" : "}\n", fmt->out);
 		break;
 	case UL_JSON_ARRAY:
 		fmt->indent--;
 		fputc('\n', fmt->out);
 		ul_jsonwrt_indent(fmt);
-		fputs("]", fmt->out);
+		fputs(fmt->indent ? "]" : "]\n", fmt->out);
 		break;
 	case UL_JSON_VALUE:
 		break;
-- 
2.43.0

