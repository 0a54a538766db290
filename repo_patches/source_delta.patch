From f91d282650054d38999a2ee6ce860740ee85465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:46 +0000
Subject: [PATCH 001/148] fix: honour alignment and overlap constraints on a
 new label before its first commit

_partition_align () skipped the label's alignment whenever needs_clobber was
set, to leave partitions alone while a table is being read.  A label fresh
from ped_disk_new_fresh () has it set too, so until its first commit any
constraint other than an exact one was ignored and overlapping partitions
were accepted.
---
 libparted/disk.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/disk.c b/libparted/disk.c
index 0db7b5c..217eae6 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -198,6 +198,7 @@ ped_disk_new (PedDevice* dev)
 	disk = ped_disk_new_fresh (dev, type);
 	if (!disk)
 		goto error_close_dev;
+	disk->needs_clobber = -1;	/* being read, see _partition_align () */
 	if (!type->ops->read (disk))
 		goto error_destroy_disk;
 	disk->needs_clobber = 0;
@@ -951,7 +952,7 @@ _partition_align (PedPartition* part, const PedConstraint* constraint)
 	PED_ASSERT (disk_type->ops->partition_align != NULL);
 	PED_ASSERT (part->disk->update_mode);
 
-	if (part->disk->needs_clobber)
+	if (part->disk->needs_clobber < 0)
 		return 1; /* do not attempt to align partitions while reading them */
 	return disk_type->ops->partition_align (part, constraint);
 }
-- 
2.43.0


From ccce2e13bde7593da8f5638fe7bfb9e95622d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:22 +0000
Subject: [PATCH 002/148] fix: write a whole sector for an empty extended
 partition

write_empty_table () handed ped_device_write () a 512-byte stack buffer
whatever the sector size, so with larger sectors stack contents went to disk;
if the sector could not be read the table was uninitialised as well.
---
 libparted/labels/dos.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index e6a0105..5b88f5a 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1394,19 +1394,20 @@ write_ext_table (const PedDisk* disk,
 static int
 write_empty_table (const PedDisk* disk, PedSector sector)
 {
-	DosRawTable		table;
-	void*			table_sector;
+	void*			s;
 
 	PED_ASSERT (disk != NULL);
 
-	if (ptt_read_sector (disk->dev, sector, &table_sector)) {
-		memcpy (&table, table_sector, sizeof (table));
-		free(table_sector);
-	}
-	memset (&(table.partitions), 0, sizeof (table.partitions));
-	table.magic = PED_CPU_TO_LE16 (MSDOS_MAGIC);
+	if (!ptt_read_sector (disk->dev, sector, &s))
+		return 0;
+
+	DosRawTable *table = s;
+	memset (&(table->partitions), 0, sizeof (table->partitions));
+	table->magic = PED_CPU_TO_LE16 (MSDOS_MAGIC);
 
-	return ped_device_write (disk->dev, (void*) &table, sector, 1);
+	int ok = ped_device_write (disk->dev, table, sector, 1);
+	free (s);
+	return ok;
 }
 
 /* Find the first logical partition, and write the partition table for it.
-- 
2.43.0


From 0694ba15046f60a73fb05c5cfe3f7676bce66ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:05 +0000
Subject: [PATCH 003/148] fix: restore free space and metadata after a refused
 ped_disk_set_partition_geom

The error path left update mode, which recomputes the free space and metadata
regions, while the partition still had the rejected geometry.
---
 libparted/disk.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libparted/disk.c b/libparted/disk.c
index 217eae6..5cedd95 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -2339,6 +2339,9 @@ ped_disk_set_partition_geom (PedDisk* disk, PedPartition* part,
 	return 1;
 
 error_pop_update_mode:
+	/* restore the geometry first: it decides where metadata and free
+	 * space go */
+	part->geom = old_geom;
 	_disk_pop_update_mode (disk);
 error:
 	ped_constraint_destroy (overlap_constraint);
-- 
2.43.0


From dd8aa4780b4d362d898451aa1bf6f6cf14d82efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:05 +0000
Subject: [PATCH 004/148] fix: keep an extended partition's metadata inside it

For an extended partition shorter than a track the metadata region ran past
its end, could not be added, and left its first sector unaccounted for.
---
 libparted/labels/dos.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 5b88f5a..e6823d3 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -2497,7 +2497,8 @@ msdos_alloc_metadata (PedDisk* disk)
 
 		partition_probe_bios_geometry (ext_part, &bios_geom);
 		start = ext_part->geom.start;
-		end = start + bios_geom.sectors - 1;
+		end = PED_MIN (start + bios_geom.sectors - 1,
+			       ext_part->geom.end);
 		if (ext_part->part_list)
 			end = PED_MIN (end,
 				       ext_part->part_list->geom.start - 1);
-- 
2.43.0


From e6ace9b7704a5bfb61ec295f8642cb764383a357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:05 +0000
Subject: [PATCH 005/148] fix: do not duplicate the partition of a loop label
 twice

---
 libparted/labels/loop.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/loop.c b/libparted/labels/loop.c
index 45d169d..b116fb3 100644
--- a/libparted/labels/loop.c
+++ b/libparted/labels/loop.c
@@ -103,7 +103,13 @@ loop_alloc (const PedDevice* dev)
 static PedDisk*
 loop_duplicate (const PedDisk* disk)
 {
-	return ped_disk_new_fresh (disk->dev, &loop_disk_type);
+	PedDisk *new_disk = ped_disk_new_fresh (disk->dev, &loop_disk_type);
+	/* drop the default partition, the caller duplicates the old one */
+	if (new_disk && !ped_disk_delete_all (new_disk)) {
+		ped_disk_destroy (new_disk);
+		return NULL;
+	}
+	return new_disk;
 }
 
 static void
-- 
2.43.0


From fb23009bb904dacbe448d4093d160f8e55ee243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:33 +0000
Subject: [PATCH 006/148] fix: duplicate dvh labels without a second volume
 header partition

dvh_duplicate () kept the default volume header partition of the fresh label,
leaked its data and forgot the root, swap and boot settings.
---
 libparted/labels/dvh.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 7d7dae3..b083cdb 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -135,16 +135,17 @@ dvh_duplicate (const PedDisk* disk)
 	if (!new_disk)
 		goto error;
 
-	new_disk->disk_specific = new_dvh_disk_data
-		= ped_malloc (sizeof (DVHDiskData));
-	if (!new_dvh_disk_data)
-		goto error_free_new_disk;
+	/* drop the default volume header partition, the caller duplicates
+	 * the old one */
+	if (!ped_disk_delete_all (new_disk))
+		goto error_destroy_new_disk;
 
-	new_dvh_disk_data->dev_params = old_dvh_disk_data->dev_params;
+	new_dvh_disk_data = new_disk->disk_specific;
+	*new_dvh_disk_data = *old_dvh_disk_data;
 	return new_disk;
 
-error_free_new_disk:
-	free (new_disk);
+error_destroy_new_disk:
+	ped_disk_destroy (new_disk);
 error:
 	return NULL;
 }
-- 
2.43.0


From 4897e20de5dbbcad549b658e51c99587bee15891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:33 +0000
Subject: [PATCH 007/148] fix: keep partition numbers when duplicating an amiga
 label

---
 libparted/labels/rdb.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 499d385..5df133b 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -853,6 +853,7 @@ amiga_partition_duplicate (const PedPartition* part)
 				      part->geom.end);
 	if (!new_part)
 		return NULL;
+	new_part->num = part->num;
 
 	new_amiga_part = (struct PartitionBlock *) new_part->disk_specific;
 	memcpy (new_amiga_part, old_amiga_part, 256);
-- 
2.43.0


From 2ab18db3d7566716757874781e3f1cc11817f3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 008/148] fix: keep the mac partition map where it is written

Its entries always go to the sectors from 1 on, so once its partition had
been moved or shrunk a commit wrote over other partitions or aborted.  Also
count the entries of a fresh map like those of one that was read.
---
 libparted/labels/mac.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 6711d87..dbf11fc 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -253,7 +253,7 @@ _disk_add_part_map_entry (PedDisk* disk, int warn)
 
 	mac_disk_data->part_map_entry_num = new_part->num;
 	mac_disk_data->part_map_entry_count
-		= new_part->geom.end - mac_disk_data->ghost_size;
+		= new_part->geom.end - mac_disk_data->ghost_size + 1;
 	ped_constraint_destroy (constraint_any);
 	return 1;
 
@@ -1396,11 +1396,28 @@ _primary_constraint (PedDisk* disk)
 static int
 mac_partition_align (PedPartition* part, const PedConstraint* constraint)
 {
+	MacDiskData*		mac_disk_data;
+
 	PED_ASSERT (part != NULL);
 
+	mac_disk_data = part->disk->disk_specific;
+
 	if (_ped_partition_attempt_align (part, constraint,
-					  _primary_constraint (part->disk)))
-	       	return 1;
+					  _primary_constraint (part->disk))) {
+		/* the entries are always written from sector 1 on */
+		if (part->num != mac_disk_data->part_map_entry_num
+		    || (part->geom.start == 1
+			&& part->geom.end
+				>= mac_disk_data->part_map_entry_count))
+			return 1;
+#ifndef DISCOVER_ONLY
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_CANCEL,
+			_("Can't move or shrink the partition map."));
+#endif
+		return 0;
+	}
 
 #ifndef DISCOVER_ONLY
 	ped_exception_throw (
-- 
2.43.0


From 095b52ab7e8435fb357f52b73351199cfa96de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:26 +0000
Subject: [PATCH 009/148] fix: leave a partition alone when it cannot be
 maximized

The error path set the old geometry again with any constraint, so labels that
align partitions moved one that was not aligned.
---
 libparted/disk.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/libparted/disk.c b/libparted/disk.c
index 5cedd95..d8d87cd 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -2360,13 +2360,11 @@ int
 ped_disk_maximize_partition (PedDisk* disk, PedPartition* part,
 			     const PedConstraint* constraint)
 {
-	PedGeometry	old_geom;
 	PedSector	global_min_start;
 	PedSector	global_max_end;
 	PedSector	new_start;
 	PedSector	new_end;
 	PedPartition*	ext_part = ped_disk_extended_partition (disk);
-	PedConstraint*	constraint_any;
 
 	PED_ASSERT (disk != NULL);
 	PED_ASSERT (part != NULL);
@@ -2380,8 +2378,6 @@ ped_disk_maximize_partition (PedDisk* disk, PedPartition* part,
 		global_max_end = disk->dev->length - 1;
 	}
 
-	old_geom = part->geom;
-
 	if (!_disk_push_update_mode (disk))
 		return 0;
 
@@ -2404,10 +2400,7 @@ ped_disk_maximize_partition (PedDisk* disk, PedPartition* part,
 	return 1;
 
 error:
-	constraint_any = ped_constraint_any (disk->dev);
-	ped_disk_set_partition_geom (disk, part, constraint_any,
-				     old_geom.start, old_geom.end);
-	ped_constraint_destroy (constraint_any);
+	/* ped_disk_set_partition_geom () has put the old geometry back */
 	_disk_pop_update_mode (disk);
 	return 0;
 }
-- 
2.43.0


From 6cccfada902afc939a3144a8285f2a2a2559baf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 010/148] fix: let a dvh volume header partition be created

dvh_partition_enumerate () picked its number and then failed without a
message; and keep that number free for it.
---
 libparted/labels/dvh.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index b083cdb..b3eca01 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -796,10 +796,11 @@ dvh_partition_enumerate (PedPartition* part)
 	} else if (part->type & PED_PARTITION_EXTENDED) {
 		/* Volheader */
 		part->num = PNUM_VOLHDR + 1;
+		return 1;
 	} else {
 		for (i = 1; i <= NPARTAB; i++) {
-			/* reserved for full volume partition */
-			if (i == PNUM_VOLUME + 1)
+			/* reserved for volume header and full volume partition */
+			if (i == PNUM_VOLHDR + 1 || i == PNUM_VOLUME + 1)
 				continue;
 
 			if (!ped_disk_get_partition (part->disk, i)) {
-- 
2.43.0


From fb62f5dd84b95a05fe943cb73e51f384ea79c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 011/148] fix: keep mac partition flags consistent with the
 stored type

Clearing boot, lvm or raid did not clear it, setting one kept the others,
and setting a flag on the partition map made the label unreadable.
---
 libparted/labels/mac.c | 72 +++++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 26 deletions(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index dbf11fc..ec10bcf 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -1179,6 +1179,27 @@ mac_partition_destroy (PedPartition* part)
 	free (part);
 }
 
+/* Sets the type of a partition, and forgets the flags that another type
+ * stood for.  (The flags are not stored:  they follow from the type, and
+ * sometimes the name, of a partition.)
+ */
+static void
+_set_type (MacPartitionData* mac_data, const char* type)
+{
+	strcpy (mac_data->system_name, type);
+	mac_data->is_boot = !strcmp (type, "Apple_Bootstrap");
+	mac_data->is_lvm = !strcmp (type, "Linux_LVM");
+	mac_data->is_raid = !strcmp (type, "Linux_RAID");
+	if (strcmp (type, "Apple_UNIX_SVR2") != 0)
+		mac_data->is_root = mac_data->is_swap = 0;
+}
+
+static int _GL_ATTRIBUTE_PURE
+_is_partition_map (const MacPartitionData* mac_data)
+{
+	return !strcasecmp (mac_data->system_name, "Apple_partition_map");
+}
+
 static int
 mac_partition_set_system (PedPartition* part, const PedFileSystemType* fs_type)
 {
@@ -1186,25 +1207,26 @@ mac_partition_set_system (PedPartition* part, const PedFileSystemType* fs_type)
 
 	part->fs_type = fs_type;
 
-	if (fs_type && is_linux_swap (fs_type->name))
-		ped_partition_set_flag (part, PED_PARTITION_SWAP, 1);
+	if (_is_partition_map (mac_data))
+		return 1;
 
 	if (mac_data->is_boot) {
-		strcpy (mac_data->system_name, "Apple_Bootstrap");
 		mac_data->status = 0x33;
 		return 1;
 	}
 
 	if (fs_type && (!strcmp (fs_type->name, "hfs")
 			|| !strcmp (fs_type->name, "hfs+"))) {
-		strcpy (mac_data->system_name, "Apple_HFS");
+		_set_type (mac_data, "Apple_HFS");
 		mac_data->status |= 0x7f;
 	} else if (fs_type && !strcmp (fs_type->name, "hfsx")) {
-		strcpy (mac_data->system_name, "Apple_HFSX");
+		_set_type (mac_data, "Apple_HFSX");
 		mac_data->status |= 0x7f;
 	} else {
-		strcpy (mac_data->system_name, "Apple_UNIX_SVR2");
+		_set_type (mac_data, "Apple_UNIX_SVR2");
 		mac_data->status = 0x33;
+		if (fs_type && is_linux_swap (fs_type->name))
+			ped_partition_set_flag (part, PED_PARTITION_SWAP, 1);
 	}
 
 	return 1;
@@ -1222,19 +1244,18 @@ mac_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 
 	switch (flag) {
 	case PED_PARTITION_BOOT:
-		mac_data->is_boot = state;
-
-		if (part->fs_type)
-			return mac_partition_set_system (part, part->fs_type);
-
 		if (state) {
-			strcpy (mac_data->system_name, "Apple_Bootstrap");
+			_set_type (mac_data, "Apple_Bootstrap");
 			mac_data->status = 0x33;
+		} else if (mac_data->is_boot) {
+			mac_data->is_boot = 0;
+			return mac_partition_set_system (part, part->fs_type);
 		}
 		return 1;
 
 	case PED_PARTITION_ROOT:
 		if (state) {
+			_set_type (mac_data, "Apple_UNIX_SVR2");
 			strcpy (mac_data->volume_name, "root");
 			mac_data->is_swap = 0;
 		} else {
@@ -1246,6 +1267,7 @@ mac_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 
 	case PED_PARTITION_SWAP:
 		if (state) {
+			_set_type (mac_data, "Apple_UNIX_SVR2");
 			strcpy (mac_data->volume_name, "swap");
 			mac_data->is_root = 0;
 		} else {
@@ -1256,23 +1278,17 @@ mac_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 		return 1;
 
 	case PED_PARTITION_LVM:
-		if (state) {
-			strcpy (mac_data->system_name, "Linux_LVM");
-			mac_data->is_lvm = state;
-		} else {
-			if (mac_data->is_lvm)
-				mac_partition_set_system (part, part->fs_type);
-		}
+		if (state)
+			_set_type (mac_data, "Linux_LVM");
+		else if (mac_data->is_lvm)
+			return mac_partition_set_system (part, part->fs_type);
 		return 1;
 
 	case PED_PARTITION_RAID:
-		if (state) {
-			strcpy (mac_data->system_name, "Linux_RAID");
-			mac_data->is_raid = state;
-		} else {
-			if (mac_data->is_raid)
-				mac_partition_set_system (part, part->fs_type);
-		}
+		if (state)
+			_set_type (mac_data, "Linux_RAID");
+		else if (mac_data->is_raid)
+			return mac_partition_set_system (part, part->fs_type);
 		return 1;
 
 	default:
@@ -1314,6 +1330,10 @@ static int
 mac_partition_is_flag_available (
 	const PedPartition* part, PedPartitionFlag flag)
 {
+	/* each flag would turn the partition map into something else */
+	if (_is_partition_map (part->disk_specific))
+		return 0;
+
 	switch (flag) {
 	case PED_PARTITION_BOOT:
 	case PED_PARTITION_ROOT:
-- 
2.43.0


From 4537c8bdd6edb747154d1b9ad6713a9e7a1a7e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 012/148] fix: do not read outside short partition names

An empty mac or pc98 name read (and could write) before the name; a dvh name
was read past its end; a mac name kept a 32nd character that is not stored.
---
 libparted/labels/dvh.c  |  2 +-
 libparted/labels/mac.c  | 13 +++++++------
 libparted/labels/pc98.c |  6 +++---
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index b3eca01..f367485 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -710,7 +710,7 @@ dvh_partition_set_name (PedPartition* part, const char* name)
 
 	if (part->type == PED_PARTITION_LOGICAL) {
 		/* Bootfile */
-		memcpy (dvh_part_data->name, name, VDNAMESIZE);
+		strncpy (dvh_part_data->name, name, VDNAMESIZE);
 		dvh_part_data->name[VDNAMESIZE] = 0;
 	} else {
 #ifndef DISCOVER_ONLY
diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index ec10bcf..e0b5da6 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -1351,7 +1351,7 @@ static void
 mac_partition_set_name (PedPartition* part, const char* name)
 {
 	MacPartitionData*	mac_data;
-	int			i;
+	size_t			n;
 
 	PED_ASSERT (part != NULL);
 	PED_ASSERT (part->disk_specific != NULL);
@@ -1370,11 +1370,12 @@ mac_partition_set_name (PedPartition* part, const char* name)
 	}
 #endif
 
-	strncpy (mac_data->volume_name, name, 32);
-	mac_data->volume_name [32] = 0;
-	for (i = strlen (mac_data->volume_name) - 1;
-			mac_data->volume_name[i] == ' '; i--)
-		mac_data->volume_name [i] = 0;
+	/* only 31 characters are stored */
+	strncpy (mac_data->volume_name, name, 31);
+	mac_data->volume_name [31] = 0;
+	for (n = strlen (mac_data->volume_name);
+			n && mac_data->volume_name[n - 1] == ' '; n--)
+		mac_data->volume_name [n - 1] = 0;
 }
 
 static const char* _GL_ATTRIBUTE_PURE
diff --git a/libparted/labels/pc98.c b/libparted/labels/pc98.c
index cfa3ba4..21e63b5 100644
--- a/libparted/labels/pc98.c
+++ b/libparted/labels/pc98.c
@@ -625,7 +625,7 @@ static void
 pc98_partition_set_name (PedPartition* part, const char* name)
 {
 	PC98PartitionData*	pc98_data;
-	int			i;
+	size_t			n;
 
 	PED_ASSERT (part != NULL);
 	PED_ASSERT (part->disk_specific != NULL);
@@ -633,8 +633,8 @@ pc98_partition_set_name (PedPartition* part, const char* name)
 
 	strncpy (pc98_data->name, name, 16);
 	pc98_data->name [16] = 0;
-	for (i = strlen (pc98_data->name) - 1; pc98_data->name[i] == ' '; i--)
-		pc98_data->name [i] = 0;
+	for (n = strlen (pc98_data->name); n && pc98_data->name[n - 1] == ' '; n--)
+		pc98_data->name [n - 1] = 0;
 }
 
 static const char* _GL_ATTRIBUTE_PURE
-- 
2.43.0


From f45b0e06d143b378484c78f0f9b9cbbbf509cdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:18 +0000
Subject: [PATCH 013/148] fix: keep the size of dvh boot files in step with
 their partition

Also report that there are too many boot files instead of aborting.
---
 libparted/labels/dvh.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index f367485..a0ea70f 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -236,16 +236,23 @@ _parse_partition (PedDisk* disk, struct partition_table* pt)
 	return part;
 }
 
+static PedSector _GL_ATTRIBUTE_CONST
+_bytes_to_sectors (PedSector bytes)
+{
+	return (bytes + 511) / 512;
+}
+
 static PedPartition*
 _parse_boot_file (PedDisk* disk, struct volume_directory* vd)
 {
 	PedPartition*	part;
 	DVHPartData*	dvh_part_data;
 	PedSector	start = PED_BE32_TO_CPU (vd->vd_lbn);
-	int		length = PED_BE32_TO_CPU (vd->vd_nbytes);
+	uint32_t	length = PED_BE32_TO_CPU (vd->vd_nbytes);
 
 	part = ped_partition_new (disk, PED_PARTITION_LOGICAL, NULL,
-				  start, start + length/512 - 1);
+				  start,
+				  start + _bytes_to_sectors (length) - 1);
 	if (!part)
 		return NULL;
 
@@ -428,6 +435,12 @@ _generate_boot_file (PedPartition* part, struct volume_directory* vd)
 	/* Assert it's a bootfile */
 	PED_ASSERT ((part->type & PED_PARTITION_LOGICAL) != 0);
 
+	/* the size the file was created with is stale once the partition has
+	 * been aligned or resized */
+	if (_bytes_to_sectors (dvh_part_data->real_file_size)
+	    != part->geom.length)
+		dvh_part_data->real_file_size = part->geom.length * 512;
+
 	vd->vd_nbytes = PED_CPU_TO_BE32 (dvh_part_data->real_file_size);
 	vd->vd_lbn = PED_CPU_TO_BE32 (part->geom.start);
 
@@ -792,7 +805,10 @@ dvh_partition_enumerate (PedPartition* part)
 				return 1;
 			}
 		}
-		PED_ASSERT (0);
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_CANCEL,
+			_("Too many boot files"));
 	} else if (part->type & PED_PARTITION_EXTENDED) {
 		/* Volheader */
 		part->num = PNUM_VOLHDR + 1;
-- 
2.43.0


From a001f7932436738b99a0fb0f73222c5a44039776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:18 +0000
Subject: [PATCH 014/148] fix: do not flag unnamed dvh boot files as bootable

---
 libparted/labels/dvh.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index a0ea70f..3a2c21c 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -390,7 +390,8 @@ dvh_read (PedDisk* disk)
 		part->fs_type = ped_file_system_probe (&part->geom);
 		part->num = NPARTAB + i + 1;
 
-		if (!strcmp (boot_name, ped_partition_get_name (part)))
+		if (boot_name[0]
+		    && !strcmp (boot_name, ped_partition_get_name (part)))
 			ped_partition_set_flag (part, PED_PARTITION_BOOT, 1);
 
 		PedConstraint *constraint_exact
-- 
2.43.0


From da6748a850e220fd253c1cb69a2a469c7b4bcbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:18 +0000
Subject: [PATCH 015/148] fix: open the device before probing an extended
 partition's contents

---
 libparted/labels/dos.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index e6823d3..0eabd20 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -815,7 +815,12 @@ probe_filesystem_for_geom (const PedPartition* part, PedCHSGeometry* bios_geom)
 	if (!found)
 		goto end;
 
-	if (!ped_geometry_read(&part->geom, buf, 0, 1))
+	/* callers need not have opened the device */
+	if (!ped_device_open (part->disk->dev))
+		goto end;
+	int read_ok = ped_geometry_read(&part->geom, buf, 0, 1);
+	ped_device_close (part->disk->dev);
+	if (!read_ok)
 		goto end;
 
 	/* shared by the start of all Microsoft file systems */
-- 
2.43.0


From f44018de983d9ab8666851e5be47303d941b9bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 016/148] fix: keep the MBR disk signature when there is no
 boot code

Committing a table on a disk without boot code gave the disk a new
signature, which changes the PARTUUID of all its partitions.
---
 libparted/labels/dos.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 0eabd20..488049e 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1450,7 +1450,7 @@ msdos_write (const PedDisk* disk)
 	DosRawTable *table = (DosRawTable *) s0;
 
 	if (!table->boot_code[0]) {
-		memset (table, 0, 512);
+		memset (table->boot_code, 0, sizeof (table->boot_code));
 		memcpy (table->boot_code, MBR_BOOT_CODE, sizeof (MBR_BOOT_CODE));
 	}
 
-- 
2.43.0


From fc89349278e0d415bad24aab3424a7c7d7757998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 017/148] fix: do not let a type id hide or invent an extended
 partition

---
 libparted/labels/dos.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 488049e..e972006 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1735,6 +1735,19 @@ int
 msdos_partition_set_type_id (PedPartition* part, uint8_t id)
 {
         DosPartitionData* dos_data = part->disk_specific;
+        DosRawPartition raw_part = { .type = id };
+
+        /* Only an extended partition can hold logical partitions.  */
+        if (!raw_part_is_extended (&raw_part)
+            != !(part->type & PED_PARTITION_EXTENDED)) {
+                ped_exception_throw (
+                        PED_EXCEPTION_ERROR,
+                        PED_EXCEPTION_CANCEL,
+                        _("Changing the type would turn an extended "
+                          "partition into another one, or another one "
+                          "into an extended partition."));
+                return 0;
+        }
 
         dos_data->system = id;
 
-- 
2.43.0


From f6e18b3301ae445f4cd91563a622e25143f68ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:55 +0000
Subject: [PATCH 018/148] fix: do not offer to hide a msdos extended partition

The type of a hidden one is not recognised as an extended partition, so
all logical partitions were lost.
---
 libparted/labels/dos.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index e972006..f297bdc 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1717,7 +1717,9 @@ msdos_partition_is_flag_available (const PedPartition* part,
 
 	switch (flag) {
 	case PED_PARTITION_HIDDEN:
-		return dos_type_id_supports_hidden(dos_data->system);
+		/* a hidden extended partition is not recognised as one */
+		return !(part->type & PED_PARTITION_EXTENDED)
+		       && dos_type_id_supports_hidden(dos_data->system);
 
 	case PED_PARTITION_LBA:
 		return dos_type_id_supports_lba(dos_data->system);
-- 
2.43.0


From 51a94b3fb52e6113857ea340ecd26d70459cc4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:55 +0000
Subject: [PATCH 019/148] fix: let the lba flag of a hidden FAT partition be
 changed

---
 libparted/labels/dos.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index f297bdc..d73bad7 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -288,10 +288,18 @@ dos_type_id_set_lba(unsigned char* type_id, bool state)
 		*type_id = PARTITION_FAT16_LBA;
 		break;
 
+	    case PARTITION_FAT16_H:
+		*type_id = PARTITION_FAT16_LBA_H;
+		break;
+
 	    case PARTITION_FAT32:
 		*type_id = PARTITION_FAT32_LBA;
 		break;
 
+	    case PARTITION_FAT32_H:
+		*type_id = PARTITION_FAT32_LBA_H;
+		break;
+
 	    case PARTITION_DOS_EXT:
 		*type_id = PARTITION_EXT_LBA;
 		break;
@@ -305,10 +313,18 @@ dos_type_id_set_lba(unsigned char* type_id, bool state)
 		*type_id = PARTITION_FAT16;
 		break;
 
+	    case PARTITION_FAT16_LBA_H:
+		*type_id = PARTITION_FAT16_H;
+		break;
+
 	    case PARTITION_FAT32_LBA:
 		*type_id = PARTITION_FAT32;
 		break;
 
+	    case PARTITION_FAT32_LBA_H:
+		*type_id = PARTITION_FAT32_H;
+		break;
+
 	    case PARTITION_EXT_LBA:
 		*type_id = PARTITION_DOS_EXT;
 		break;
-- 
2.43.0


From b6d665cd50ff8e20144700f224b9f8893e8b3456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 020/148] fix: clearing a dvh flag must not clear it on another
 partition

---
 libparted/labels/dvh.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 3a2c21c..e5b0f2b 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -631,7 +631,10 @@ dvh_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 #endif
 			return 0;
 		}
-		dvh_disk_data->root = state ? part->num : 0;
+		if (state)
+			dvh_disk_data->root = part->num;
+		else if (dvh_disk_data->root == part->num)
+			dvh_disk_data->root = 0;
 		break;
 
 	case PED_PARTITION_SWAP:
@@ -645,7 +648,10 @@ dvh_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 			return 0;
 #endif
 		}
-		dvh_disk_data->swap = state ? part->num : 0;
+		if (state)
+			dvh_disk_data->swap = part->num;
+		else if (dvh_disk_data->swap == part->num)
+			dvh_disk_data->swap = 0;
 		break;
 
 	case PED_PARTITION_BOOT:
@@ -659,7 +665,10 @@ dvh_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 #endif
 			return 0;
 		}
-		dvh_disk_data->boot = state ? part->num : 0;
+		if (state)
+			dvh_disk_data->boot = part->num;
+		else if (dvh_disk_data->boot == part->num)
+			dvh_disk_data->boot = 0;
 		break;
 
 	case PED_PARTITION_LVM:
-- 
2.43.0


From 6858fe2645551fcf000cf2efdf248847f670920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 021/148] fix: initialize the range in which an extended
 partition can start

With a logical partition in sector 2 the range was empty, and the
constraint was made from an uninitialized geometry.
---
 libparted/labels/dos.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index d73bad7..d24f1a7 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -2224,7 +2224,9 @@ _no_geom_extended_constraint (const PedPartition* part)
 	PedConstraint*	constraint;
 
 	if (min) {
-		ped_geometry_init (&start_range, dev, 1, min->start);
+		/* room for LILO is reserved if there is any */
+		ped_geometry_init (&start_range, dev, 1,
+				   PED_MAX (min->start, 1));
 		ped_geometry_init (&end_range, dev, min->end,
 				   dev->length - min->end);
 		ped_geometry_destroy (min);
-- 
2.43.0


From de87c8940b24ead100414bba54eef46c6590dce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 022/148] fix: do not abort when a maximized partition's old
 place is unusual

ped_disk_get_max_partition_geometry () asked the label to align the partition
back to where it was, and aborted when the label would not place a partition
there now.
---
 libparted/disk.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/libparted/disk.c b/libparted/disk.c
index d8d87cd..eebefa3 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -2417,7 +2417,6 @@ ped_disk_get_max_partition_geometry (PedDisk* disk, PedPartition* part,
 {
 	PedGeometry	old_geom;
 	PedGeometry*	max_geom;
-	PedConstraint*	constraint_exact;
 
 	PED_ASSERT(disk != NULL);
 	PED_ASSERT(part != NULL);
@@ -2428,17 +2427,24 @@ ped_disk_get_max_partition_geometry (PedDisk* disk, PedPartition* part,
 		return NULL;
 	max_geom = ped_geometry_duplicate (&part->geom);
 
-	constraint_exact = ped_constraint_exact (&old_geom);
-	ped_disk_set_partition_geom (disk, part, constraint_exact,
-				     old_geom.start, old_geom.end);
-	ped_constraint_destroy (constraint_exact);
-
-	/* this assertion should never fail, because the old
-	 * geometry was valid
+	/* Put the old geometry back.  Don't ask the label to align it: it may
+	 * have rules for a new place of a partition that a valid partition
+	 * doesn't meet (an extended partition should have two sectors before
+	 * the first logical partition, for instance).
 	 */
-	PED_ASSERT (ped_geometry_test_equal (&part->geom, &old_geom));
+	if (!_disk_push_update_mode (disk))
+		goto error_destroy_max_geom;
+	_disk_raw_remove (disk, part);
+	part->geom = old_geom;
+	_disk_raw_add (disk, part);
+	if (!_disk_pop_update_mode (disk))
+		goto error_destroy_max_geom;
 
 	return max_geom;
+
+error_destroy_max_geom:
+	ped_geometry_destroy (max_geom);
+	return NULL;
 }
 
 /**
-- 
2.43.0


From 4dde790b6adc3ba09598ebd9a357bdfee3cd46d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:38 +0000
Subject: [PATCH 023/148] fix: compute the end of bsd partitions in 64 bits

---
 libparted/labels/bsd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/bsd.c b/libparted/labels/bsd.c
index 38bc64c..3c54e09 100644
--- a/libparted/labels/bsd.c
+++ b/libparted/labels/bsd.c
@@ -276,7 +276,7 @@ bsd_read (PedDisk* disk)
 		    || !label->d_partitions[i - 1].p_fstype)
 			continue;
 		start = PED_LE32_TO_CPU(label->d_partitions[i - 1].p_offset);
-		end = PED_LE32_TO_CPU(label->d_partitions[i - 1].p_offset)
+		end = start
 		      + PED_LE32_TO_CPU(label->d_partitions[i - 1].p_size) - 1;
 		part = ped_partition_new (disk, PED_PARTITION_NORMAL,
                                           NULL, start, end);
-- 
2.43.0


From acb040ddaf0b9753162611529da205322b02a800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 024/148] fix: refuse pc98 partitions whose cylinder numbers
 don't fit

---
 libparted/labels/pc98.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/pc98.c b/libparted/labels/pc98.c
index 21e63b5..4c6573e 100644
--- a/libparted/labels/pc98.c
+++ b/libparted/labels/pc98.c
@@ -418,6 +418,15 @@ fill_raw_part (PC98RawPartition* raw_part, const PedPartition* part)
 		    part->num);
 		return 0;
 	}
+	if (c > UINT16_MAX) {
+		ped_exception_throw (
+		    PED_EXCEPTION_NO_FEATURE,
+		    PED_EXCEPTION_CANCEL,
+		    _("Partition %d ends after cylinder %d, the last one "
+		      "that a pc98 partition table can describe."),
+		    part->num, UINT16_MAX);
+		return 0;
+	}
 	raw_part->end_cyl    = PED_CPU_TO_LE16(c);
 	raw_part->end_head   = 0;
 	raw_part->end_sector = 0;
@@ -452,8 +461,10 @@ pc98_write (const PedDisk* disk)
 		if (!part)
 			continue;
 
-		if (!fill_raw_part (&table->partitions [i - 1], part))
+		if (!fill_raw_part (&table->partitions [i - 1], part)) {
+			free (s0);
 			return 0;
+		}
 	}
 
 	int write_ok = ped_device_write (disk->dev, table, 0, 2);
-- 
2.43.0


From b703b704126c671f4c8ba0508a5f962b99299d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:59 +0000
Subject: [PATCH 025/148] fix: list amiga partitions in the order of their
 numbers

---
 libparted/labels/rdb.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 5df133b..5d487c6 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -617,13 +617,18 @@ _amiga_next_free_block(uint32_t *table, uint32_t start, uint32_t type) {
 	for (i = start; table[i] != type && table[i] != IDNAME_FREE; i++);
 	return i;
 }
+/* Partition blocks are numbered by their place in the list, so the list has
+   to be in the order of the partition numbers.  */
 static PedPartition * _GL_ATTRIBUTE_PURE
 _amiga_next_real_partition(const PedDisk *disk, PedPartition *part) {
-	PedPartition *next;
-
-	for (next = ped_disk_next_partition (disk, part);
-		next != NULL && !ped_partition_is_active (next);
-		next = ped_disk_next_partition (disk, next));
+	PedPartition *p, *next = NULL;
+
+	for (p = ped_disk_next_partition (disk, NULL); p != NULL;
+		p = ped_disk_next_partition (disk, p))
+		if (ped_partition_is_active (p)
+		    && (part == NULL || p->num > part->num)
+		    && (next == NULL || p->num < next->num))
+			next = p;
 	return next;
 }
 #ifndef DISCOVER_ONLY
-- 
2.43.0


From 560c6c7f27930d13234712cd750c6e02ac6b427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:44 +0000
Subject: [PATCH 026/148] fix: no extended partition starts before sector 1

---
 libparted/labels/dos.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index d24f1a7..1fcc478 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -2019,14 +2019,16 @@ _get_min_extended_part_geom (const PedPartition* ext_part,
 	 * room for LILO.  See linux/fs/partitions/msdos.c.
 	 */
 	ped_geometry_set_start (min_geom,
-				walk->geom.start - PED_MAX (1 * head_size, 2));
+				PED_MAX (walk->geom.start
+					 - PED_MAX (1 * head_size, 2), 1));
 
 	for (walk = ext_part->part_list; walk; walk = walk->next) {
 		if (!ped_partition_is_active (walk) || walk->num == 5)
 			continue;
 		if (walk->geom.start < min_geom->start)
 			ped_geometry_set_start (min_geom,
-					walk->geom.start - 2 * head_size);
+					PED_MAX (walk->geom.start
+						 - 2 * head_size, 1));
 		if (walk->geom.end > min_geom->end)
 			ped_geometry_set_end (min_geom, walk->geom.end);
 	}
-- 
2.43.0


From 2b99124f9c5a3a745ad54bc5380a755edbc1dbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:45 +0000
Subject: [PATCH 027/148] fix: do not write uninitialized memory after a dvh
 file name

---
 libparted/labels/dvh.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index e5b0f2b..b2f61f6 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -445,8 +445,8 @@ _generate_boot_file (PedPartition* part, struct volume_directory* vd)
 	vd->vd_nbytes = PED_CPU_TO_BE32 (dvh_part_data->real_file_size);
 	vd->vd_lbn = PED_CPU_TO_BE32 (part->geom.start);
 
-	memset (vd->vd_name, 0, VDNAMESIZE);
-	memcpy (vd->vd_name, dvh_part_data->name, VDNAMESIZE);
+	/* pads with zeros; what follows the name in memory is undefined */
+	strncpy (vd->vd_name, dvh_part_data->name, VDNAMESIZE);
 }
 
 static int
-- 
2.43.0


From 9a40633bf0ebcbe8fff4f9a3fe2727714e1f87e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:38 +0000
Subject: [PATCH 028/148] fix: compute bsd label checksums over the partitions

---
 libparted/labels/bsd.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/bsd.c b/libparted/labels/bsd.c
index 3c54e09..bfd41d0 100644
--- a/libparted/labels/bsd.c
+++ b/libparted/labels/bsd.c
@@ -105,7 +105,7 @@ struct _BSDRawLabel {
 	uint16_t	d_npartitions;		/* number of partitions in following */
 	uint32_t	d_bbsize;		/* size of boot area at sn0, bytes */
 	uint32_t	d_sbsize;		/* max size of fs superblock, bytes */
-#define D_PARTITIONS_WORDS	59
+#define D_PARTITIONS_WORDS	74	/* of 16 bits, before d_partitions */
 	BSDRawPartition d_partitions[BSD_MAXPARTITIONS];	/* actually may be more */
 } __attribute__((packed, aligned(2)));
 
@@ -128,7 +128,8 @@ static PedDiskType bsd_disk_type;
 static unsigned short
 xbsd_dkcksum (BSDRawLabel *lp) {
 	const u_short* word = (u_short*)(lp);
-	const u_short* end = word + D_PARTITIONS_WORDS + PED_LE16_TO_CPU(lp->d_npartitions);
+	const u_short* end = word + D_PARTITIONS_WORDS
+		+ PED_LE16_TO_CPU(lp->d_npartitions) * sizeof (BSDRawPartition) / 2;
 	u_short sum;
 
 	lp->d_checksum = 0;
-- 
2.43.0


From 7e98ab243889ef5f41c9c7a17669eb3e2f89c778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:00 +0000
Subject: [PATCH 029/148] fix: sync the device after writing mac and loop
 labels

---
 libparted/labels/loop.c | 4 +++-
 libparted/labels/mac.c  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/loop.c b/libparted/labels/loop.c
index b116fb3..3bc7389 100644
--- a/libparted/labels/loop.c
+++ b/libparted/labels/loop.c
@@ -181,7 +181,9 @@ loop_write (const PedDisk* disk)
 		return 0;
 	strcpy (buf, LOOP_SIGNATURE);
 
-        return ped_device_write (disk->dev, buf, 0, 1);
+	if (!ped_device_write (disk->dev, buf, 0, 1))
+		return 0;
+	return ped_device_sync (disk->dev);
 }
 #endif /* !DISCOVER_ONLY */
 
diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index e0b5da6..2a114d7 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -1105,7 +1105,9 @@ mac_write (PedDisk* disk)
 	free (part_map);
 	int write_ok = write_block_zero (disk, mac_driverdata);
 	free (mac_driverdata);
-	return write_ok;
+	if (!write_ok)
+		return 0;
+	return ped_device_sync (disk->dev);
 
 error_free_part_map:
 	free (part_map);
-- 
2.43.0


From cfd2f08011cb1d38a777713796bbeb597a99188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:24 +0000
Subject: [PATCH 030/148] fix: leave no tail of the previous gpt partition name
 behind the new one

A shorter name was converted over the longer one stored before it, whose
last characters stayed in the partition entry and were written to disk.
A name that does not fit was reported in full until the table was read
again, and iconv_close was called on an invalid descriptor.
---
 libparted/labels/gpt.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 780fb70..66fa62d 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -1705,22 +1705,27 @@ gpt_partition_set_name (PedPartition *part, const char *name)
 
   free(gpt_part_data->translated_name);
   gpt_part_data->translated_name = xstrdup(name);
+  /* No part of a longer previous name may remain behind the new one.  */
+  memset (gpt_part_data->name, 0, sizeof (gpt_part_data->name));
   iconv_t conv = iconv_open ("UCS-2LE", nl_langinfo (CODESET));
   if (conv == (iconv_t)-1)
     goto err;
   char *inbuff = gpt_part_data->translated_name;
   char *outbuff = (char *)&gpt_part_data->name;
-  size_t inbuffsize = strlen (inbuff) + 1;
+  size_t inbuffsize = strlen (inbuff);
   size_t outbuffsize = 72;
-  if (iconv (conv, &inbuff, &inbuffsize, &outbuff, &outbuffsize) == -1)
-    goto err;
+  size_t converted = iconv (conv, &inbuff, &inbuffsize, &outbuff, &outbuffsize);
   iconv_close (conv);
+  if (converted == (size_t) -1)
+    goto err;
   return;
  err:
   ped_exception_throw (PED_EXCEPTION_WARNING,
                        PED_EXCEPTION_IGNORE,
                        _("failed to translate partition name"));
-  iconv_close (conv);
+  /* From now on, report the name as it was stored.  */
+  free (gpt_part_data->translated_name);
+  gpt_part_data->translated_name = NULL;
 }
 
 static const char *
@@ -1737,9 +1742,11 @@ gpt_partition_get_name (const PedPartition *part)
       char *outbuff = buffer;
       size_t inbuffsize = 72;
       size_t outbuffsize = sizeof(buffer);
-      if (iconv (conv, &inbuff, &inbuffsize, &outbuff, &outbuffsize) == -1)
-        goto err;
+      size_t converted = iconv (conv, &inbuff, &inbuffsize,
+                                &outbuff, &outbuffsize);
       iconv_close (conv);
+      if (converted == (size_t) -1)
+        goto err;
       *outbuff = 0;
       gpt_part_data->translated_name = xstrdup (buffer);
       return gpt_part_data->translated_name;
@@ -1747,7 +1754,6 @@ gpt_partition_get_name (const PedPartition *part)
       ped_exception_throw (PED_EXCEPTION_WARNING,
                            PED_EXCEPTION_IGNORE,
                            _("failed to translate partition name"));
-      iconv_close (conv);
       return "";
     }
   return gpt_part_data->translated_name;
-- 
2.43.0


From 2fab5ffccb489b46942fb61c3fe99d57517b0a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:13 +0000
Subject: [PATCH 031/148] fix: limit dvh boot files to the size that the label
 can store

The size of a boot file is stored as a 32-bit number of bytes; a longer
logical partition was accepted and its size truncated when written.
---
 libparted/labels/dvh.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index b2f61f6..54a7329 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -56,7 +56,7 @@ typedef struct _DVHDiskData {
 typedef struct _DVHPartData {
 	int	type;
 	char	name[VDNAMESIZE + 1];	/* boot volumes only */
-	int	real_file_size;		/* boot volumes only */
+	unsigned int	real_file_size;		/* boot volumes only */
 } DVHPartData;
 
 static PedDiskType dvh_disk_type;
@@ -775,16 +775,36 @@ _get_primary_constraint (PedDisk* disk)
         return ped_constraint_new_from_max (&max_geom);
 }
 
+/* The size of a boot file is stored in bytes, in 32 bits.
+ */
+static PedConstraint*
+_get_boot_file_constraint (PedDisk* disk)
+{
+	PedConstraint*	constraint = _get_primary_constraint (disk);
+
+	if (constraint)
+		constraint->max_size = PED_MIN (constraint->max_size,
+						UINT32_MAX / 512);
+	return constraint;
+}
+
+static PedConstraint*
+_get_constraint (const PedPartition* part)
+{
+	if (part->type & PED_PARTITION_EXTENDED)
+		return _get_extended_constraint (part->disk);
+	if (part->type & PED_PARTITION_LOGICAL)
+		return _get_boot_file_constraint (part->disk);
+	return _get_primary_constraint (part->disk);
+}
+
 static int
 dvh_partition_align (PedPartition* part, const PedConstraint* constraint)
 {
         PED_ASSERT (part != NULL);
 
-	if (_ped_partition_attempt_align (
-			part, constraint,
-			(part->type == PED_PARTITION_EXTENDED)
-				? _get_extended_constraint (part->disk)
-				: _get_primary_constraint (part->disk)))
+	if (_ped_partition_attempt_align (part, constraint,
+					  _get_constraint (part)))
 		return 1;
 
 #ifndef DISCOVER_ONLY
-- 
2.43.0


From f85e8251846ff7b2f38988a51b39c42347af2360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:32 +0000
Subject: [PATCH 032/148] fix: write the atari logical partitions starting from
 the last one

The first auxiliary root sector was written first, so that when the write
was interrupted the list led to a sector that is not part of it and no
partition of the disk could be read any more.
---
 libparted/labels/atari.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/libparted/labels/atari.c b/libparted/labels/atari.c
index 8ab3720..20f5242 100644
--- a/libparted/labels/atari.c
+++ b/libparted/labels/atari.c
@@ -855,16 +855,26 @@ atr_write_logicals (const PedDisk* disk)
 	PED_ASSERT (disk != NULL);
 
 	ext = ped_disk_extended_partition (disk);
-	exts = parts = ext->geom.start;
+	exts = ext->geom.start;
 
 	pnum = first_log = atr_find_first_log (disk);
 
+	/* Start from the end of the list: if we get interrupted, no ARS on
+	 * the disk points to an ARS that has not been written. */
+	while (pnum != -1
+	       && (part = ped_disk_get_partition (disk, pnum + 1))
+	       && part->type & PED_PARTITION_LOGICAL)
+		pnum++;
+
 	while (1) {
 		if (pnum != -1) {
 			log_curr = ped_disk_get_partition (disk, pnum);
 			log_next = ped_disk_get_partition (disk, pnum + 1);
+			parts = pnum == first_log ? exts
+						  : log_curr->geom.start - 1;
 		} else {
 			log_curr = log_next = NULL;
+			parts = exts;
 		}
 
 		if (log_curr && !(log_curr->type & PED_PARTITION_LOGICAL))
@@ -872,8 +882,6 @@ atr_write_logicals (const PedDisk* disk)
 		if (log_next && !(log_next->type & PED_PARTITION_LOGICAL))
 			log_next = NULL;
 
-		PED_ASSERT (pnum == first_log || log_curr);
-
 		part = ped_disk_get_partition_by_sector (disk, parts);
 		if (part && ped_partition_is_active (part)) {
 			if (log_curr)
@@ -923,11 +931,10 @@ atr_write_logicals (const PedDisk* disk)
 		if (!ped_device_write (disk->dev, &table, parts, 1))
 			return 0;
 
-		if (!log_next)
+		if (pnum == first_log)
 			break;
 
-		parts = log_next->geom.start - 1;
-		pnum++;
+		pnum--;
 	}
 
 	return 1;
-- 
2.43.0


From 5b306325fa69dc8d8d9489d1c5dee7fd8082e40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:02 +0000
Subject: [PATCH 033/148] fix: keep the root and swap flags of mac partitions
 in step with the name

The flags are not stored but follow from the partition type and name.  A
partition that lost the flag to another type kept its name, and got the
flag back when its type changed again and the table was re-read; so did a
partition named root or swap by the user.
---
 libparted/labels/mac.c | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 2a114d7..b3606e1 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -1181,19 +1181,40 @@ mac_partition_destroy (PedPartition* part)
 	free (part);
 }
 
-/* Sets the type of a partition, and forgets the flags that another type
- * stood for.  (The flags are not stored:  they follow from the type, and
- * sometimes the name, of a partition.)
+static int _GL_ATTRIBUTE_PURE
+_is_unix (const MacPartitionData* mac_data)
+{
+	return !strcmp (mac_data->system_name, "Apple_UNIX_SVR2");
+}
+
+/* The flags are not stored:  they follow from the type, and sometimes the
+ * name, of a partition.
  */
 static void
-_set_type (MacPartitionData* mac_data, const char* type)
+_update_flags (MacPartitionData* mac_data)
 {
-	strcpy (mac_data->system_name, type);
+	const char* type = mac_data->system_name;
+	int is_unix = _is_unix (mac_data);
+
+	/* the name that stood for a flag goes away with that flag */
+	if (!is_unix && (mac_data->is_root || mac_data->is_swap))
+		strcpy (mac_data->volume_name, "untitled");
+
 	mac_data->is_boot = !strcmp (type, "Apple_Bootstrap");
 	mac_data->is_lvm = !strcmp (type, "Linux_LVM");
 	mac_data->is_raid = !strcmp (type, "Linux_RAID");
-	if (strcmp (type, "Apple_UNIX_SVR2") != 0)
-		mac_data->is_root = mac_data->is_swap = 0;
+	mac_data->is_root = is_unix && !strcmp (mac_data->volume_name, "root");
+	mac_data->is_swap = is_unix && !strcmp (mac_data->volume_name, "swap");
+}
+
+/* Sets the type of a partition, and forgets the flags that another type
+ * stood for.
+ */
+static void
+_set_type (MacPartitionData* mac_data, const char* type)
+{
+	strcpy (mac_data->system_name, type);
+	_update_flags (mac_data);
 }
 
 static int _GL_ATTRIBUTE_PURE
@@ -1378,6 +1399,11 @@ mac_partition_set_name (PedPartition* part, const char* name)
 	for (n = strlen (mac_data->volume_name);
 			n && mac_data->volume_name[n - 1] == ' '; n--)
 		mac_data->volume_name [n - 1] = 0;
+
+	mac_data->is_root = _is_unix (mac_data)
+			    && !strcmp (mac_data->volume_name, "root");
+	mac_data->is_swap = _is_unix (mac_data)
+			    && !strcmp (mac_data->volume_name, "swap");
 }
 
 static const char* _GL_ATTRIBUTE_PURE
-- 
2.43.0


From e50eb2d62d2f195fc251e92cfd20cbcfce1a99db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:24 +0000
Subject: [PATCH 034/148] fix: leave room for the first atari ARS before any
 logical partition

A logical partition one or two sectors after the minimal start of the
extended partition was ignored when shrinking the extended partition; the
resulting table could not be written.
---
 libparted/labels/atari.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/atari.c b/libparted/labels/atari.c
index 20f5242..8cb3717 100644
--- a/libparted/labels/atari.c
+++ b/libparted/labels/atari.c
@@ -1483,7 +1483,7 @@ art_min_extended_geom (const PedPartition* ext_part)
 	for (walk = ext_part->part_list; walk; walk = walk->next) {
 		if (!ped_partition_is_active (walk) || walk->num == first_log)
 			continue;
-		if (walk->geom.start < min_geom->start)
+		if (walk->geom.start - 2 < min_geom->start)
 			ped_geometry_set_start (min_geom, walk->geom.start - 2);
 		if (walk->geom.end > min_geom->end)
 			ped_geometry_set_end (min_geom, walk->geom.end);
-- 
2.43.0


From fdb7d1214968f7adb79f29309983be1a050b3076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 035/148] fix: do not write uninitialized memory after amiga
 partition blocks

Only the 256 bytes of the block itself were initialized, but a whole
sector is written.
---
 libparted/labels/rdb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 5d487c6..34107cf 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -803,7 +803,7 @@ amiga_partition_new (const PedDisk* disk, PedPartitionType part_type,
 			return NULL;
 		}
 		partition = PART(part->disk_specific);
-		memset(partition, 0, sizeof(struct PartitionBlock));
+		memset(partition, 0, disk->dev->sector_size);
 
 		partition->pb_ID = PED_CPU_TO_BE32(IDNAME_PARTITION);
 		partition->pb_SummedLongs = PED_CPU_TO_BE32(64);
-- 
2.43.0


From f8feee7f7b2f91c2162e006cc4991e55f4bf8498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:11 +0000
Subject: [PATCH 036/148] fix: give back the numbers taken for a partition that
 is not added

---
 libparted/disk.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libparted/disk.c b/libparted/disk.c
index eebefa3..5e5a051 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -2171,6 +2171,10 @@ ped_disk_add_partition (PedDisk* disk, PedPartition* part,
 error:
 	ped_constraint_destroy (overlap_constraint);
 	ped_constraint_destroy (constraints);
+	/* some labels make room for the number of a new partition by
+	 * renumbering others */
+	if (ped_partition_is_active (part))
+		ped_disk_enumerate_partitions (disk);
 	_disk_pop_update_mode (disk);
 	return 0;
 }
-- 
2.43.0


From 5e954c642976425b76d340ed44f8a4b19bf40ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:19 +0000
Subject: [PATCH 037/148] fix: leave room for the table of a logical partition
 just before partition 5

---
 libparted/labels/dos.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 1fcc478..fe15693 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -2005,27 +2005,29 @@ _get_min_extended_part_geom (const PedPartition* ext_part,
 {
 	PedDisk*		disk = ext_part->disk;
 	PedSector		head_size = bios_geom ? bios_geom->sectors : 1;
+	PedPartition*		log5;
 	PedPartition*		walk;
 	PedGeometry*		min_geom;
 
-	walk = ped_disk_get_partition (disk, 5);
-	if (!walk)
+	log5 = ped_disk_get_partition (disk, 5);
+	if (!log5)
 		return NULL;
 
-	min_geom = ped_geometry_duplicate (&walk->geom);
+	min_geom = ped_geometry_duplicate (&log5->geom);
 	if (!min_geom)
 		return NULL;
 	/* We must always allow at least two sectors at the start, to leave
 	 * room for LILO.  See linux/fs/partitions/msdos.c.
 	 */
 	ped_geometry_set_start (min_geom,
-				PED_MAX (walk->geom.start
+				PED_MAX (log5->geom.start
 					 - PED_MAX (1 * head_size, 2), 1));
 
 	for (walk = ext_part->part_list; walk; walk = walk->next) {
 		if (!ped_partition_is_active (walk) || walk->num == 5)
 			continue;
-		if (walk->geom.start < min_geom->start)
+		if (walk->geom.start < log5->geom.start
+		    && walk->geom.start - 2 * head_size < min_geom->start)
 			ped_geometry_set_start (min_geom,
 					PED_MAX (walk->geom.start
 						 - 2 * head_size, 1));
-- 
2.43.0


From 22bc53a524c769b041925b5034b5398210c4aa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:19 +0000
Subject: [PATCH 038/148] fix: see one-sector logical partitions just before
 the place asked for

---
 libparted/labels/atari.c | 3 ++-
 libparted/labels/dos.c   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/atari.c b/libparted/labels/atari.c
index 8cb3717..068bbd7 100644
--- a/libparted/labels/atari.c
+++ b/libparted/labels/atari.c
@@ -1437,7 +1437,8 @@ atr_log_constraint (const PedPartition* part)
 	max_end = ext_part->geom.end;
 
 	while (walk != NULL
-		&& (   walk->geom.start - (walk->num != first_log)
+		&& (   walk->geom.start < geom->start
+		    || walk->geom.start - (walk->num != first_log)
 						< geom->start - not_first
 		    || walk->geom.start - (walk->num != first_log)
 						< min_start ) ) {
diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index fe15693..15ba28c 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -2126,7 +2126,8 @@ _log_meta_overlap_constraint (PedPartition* part, const PedGeometry* geom)
 	max_end = ext_part->geom.end;
 
 	while (walk != NULL             /*      2)                         2) */
-		&& (   walk->geom.start - (walk->num != 5) < geom->start - not_5
+		&& (   walk->geom.start < geom->start
+		    || walk->geom.start - (walk->num != 5) < geom->start - not_5
 		    || walk->geom.start - (walk->num != 5) <= min_start )) {
 		if (walk != part && ped_partition_is_active (walk))
 			min_start = walk->geom.end + 1 + not_5; /* 2) */
-- 
2.43.0


From ca31368abea56eee19bf2985210a0f18bd759657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:41 +0000
Subject: [PATCH 039/148] fix: keep the place of the backup GPT when a disk is
 duplicated

---
 libparted/labels/gpt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 66fa62d..beea51c 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -626,6 +626,7 @@ gpt_duplicate (const PedDisk *disk)
   ped_geometry_init (&new_disk_data->data_area, disk->dev,
                      old_disk_data->data_area.start,
                      old_disk_data->data_area.length);
+  new_disk_data->AlternateLBA = old_disk_data->AlternateLBA;
   new_disk_data->entry_count = old_disk_data->entry_count;
   new_disk_data->uuid = old_disk_data->uuid;
   new_disk_data->pmbr_boot = old_disk_data->pmbr_boot;
-- 
2.43.0


From 02b405a485da0c0935f6c5645856eaa1d42f74cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:21 +0000
Subject: [PATCH 040/148] fix: place the GPT metadata according to the size of
 the entry array that was read

---
 libparted/labels/gpt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index beea51c..3edeb81 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -1078,6 +1078,10 @@ gpt_read (PedDisk *disk)
   if (!_parse_header (disk, gpt, &write_back))
     goto error_free_gpt;
 
+  /* Place the metadata again, the entry array may have another size.  */
+  if (!ped_disk_delete_all (disk))
+    goto error_free_gpt;
+
   size_t ptes_bytes;
   void *ptes = gpt_read_PE_array (disk, gpt, &ptes_bytes);
   if (ptes == NULL)
-- 
2.43.0


From f319381db250de39779c2e1e21eeb5ffed618993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:17 +0000
Subject: [PATCH 041/148] fix: round multiples of the grain below zero to
 themselves

---
 libparted/cs/natmath.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libparted/cs/natmath.c b/libparted/cs/natmath.c
index ea53afc..9771746 100644
--- a/libparted/cs/natmath.c
+++ b/libparted/cs/natmath.c
@@ -59,10 +59,9 @@ const PedAlignment* ped_alignment_none = NULL;
 static PedSector
 abs_mod (PedSector a, PedSector b)
 {
-	if (a < 0)
-		return a % b + b;
-	else
-		return a % b;
+	PedSector	remainder = a % b;
+
+	return remainder < 0 ? remainder + b : remainder;
 }
 
 /* Rounds a number down to the closest number that is a multiple of
-- 
2.43.0


From 781be96914b46ec49617feb161e142639a6f17d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:17 +0000
Subject: [PATCH 042/148] fix: round negative numbers to the nearest multiple

---
 libparted/cs/natmath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/cs/natmath.c b/libparted/cs/natmath.c
index 9771746..97ccbdd 100644
--- a/libparted/cs/natmath.c
+++ b/libparted/cs/natmath.c
@@ -89,7 +89,7 @@ ped_round_up_to (PedSector sector, PedSector grain_size)
 PedSector
 ped_round_to_nearest (PedSector sector, PedSector grain_size)
 {
-	if (sector % grain_size > grain_size/2)
+	if (abs_mod (sector, grain_size) > grain_size/2)
 		return ped_round_up_to (sector, grain_size);
 	else
 		return ped_round_down_to (sector, grain_size);
-- 
2.43.0


From e3bed2253d36d292b3d625da65f62f7ff67a3b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:17 +0000
Subject: [PATCH 043/148] fix: do not truncate large grains when intersecting
 alignments

---
 libparted/cs/natmath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/cs/natmath.c b/libparted/cs/natmath.c
index 97ccbdd..820c075 100644
--- a/libparted/cs/natmath.c
+++ b/libparted/cs/natmath.c
@@ -196,7 +196,7 @@ ped_alignment_duplicate (const PedAlignment* align)
  * 	gcd = x*a + y*b
  */
 static EuclidTriple _GL_ATTRIBUTE_PURE
-extended_euclid (int a, int b)
+extended_euclid (PedSector a, PedSector b)
 {
 	EuclidTriple	result;
 	EuclidTriple	tmp;
-- 
2.43.0


From e2eaa5fb6d21d9ed44d63a6c86d4acb45ac73667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:17 +0000
Subject: [PATCH 044/148] fix: map sectors between geometries by their offset

---
 libparted/cs/geom.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libparted/cs/geom.c b/libparted/cs/geom.c
index 99280ac..ea030cc 100644
--- a/libparted/cs/geom.c
+++ b/libparted/cs/geom.c
@@ -472,13 +472,13 @@ ped_geometry_map (const PedGeometry* dst, const PedGeometry* src,
 	PED_ASSERT (dst != NULL);
 	PED_ASSERT (src != NULL);
 
-	if (!ped_geometry_test_sector_inside (src, sector))
+	if (sector < 0 || sector >= src->length)
 		return -1;
 	if (dst->dev != src->dev)
 		return -1;
 
 	result = src->start + sector - dst->start;
-	if (result < 0 || result > dst->length)
+	if (result < 0 || result >= dst->length)
 		return -1;
 
 	return result;
-- 
2.43.0


From ac9e9f6c6401eef6647358769224e5816d724d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:17 +0000
Subject: [PATCH 045/148] fix: check the last sectors of each group for errors

---
 libparted/cs/geom.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libparted/cs/geom.c b/libparted/cs/geom.c
index ea030cc..998de25 100644
--- a/libparted/cs/geom.c
+++ b/libparted/cs/geom.c
@@ -432,8 +432,10 @@ retry:
 
 found_error:
 	ped_exception_catch();
-	for (i = group; i + granularity < group + count; i += granularity) {
-		if (!ped_geometry_read (geom, buffer, i, granularity)) {
+	for (i = group; i < group + read_len; i += granularity) {
+		if (!ped_geometry_read (geom, buffer, i,
+					PED_MIN (granularity,
+						 group + read_len - i))) {
 			ped_exception_catch();
 			ped_exception_leave_all();
 			return i;
-- 
2.43.0


From 0d6b8cc204b4b73a0cf9cf16a7dd9ad4833b15f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:17 +0000
Subject: [PATCH 046/148] fix: find solutions that end as early as their size
 allows

---
 libparted/cs/constraint.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libparted/cs/constraint.c b/libparted/cs/constraint.c
index 146c318..19e472f 100644
--- a/libparted/cs/constraint.c
+++ b/libparted/cs/constraint.c
@@ -309,8 +309,7 @@ _constraint_get_canonical_start_range (const PedConstraint* constraint)
 			constraint->end_align, constraint->end_range,
 			constraint->end_range->end);
 	if (first_end_soln == -1 || last_end_soln == -1
-	    || first_end_soln > last_end_soln
-	    || last_end_soln < constraint->min_size)
+	    || first_end_soln > last_end_soln)
 		return NULL;
 
 	min_start = first_end_soln - constraint->max_size + 1;
-- 
2.43.0


From 4c14652007786d60b7bbb4cbdf82da6d672df9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:15 +0000
Subject: [PATCH 047/148] fix: msdos: stop reading a cyclic chain of extended
 boot records

---
 libparted/labels/dos.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 15ba28c..70f74ce 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -58,6 +58,9 @@ static const char MBR_BOOT_CODE[] = {
 /* The maximum number of DOS primary partitions.  */
 #define DOS_N_PRI_PARTITIONS	4
 
+/* more extended boot records than any sane chain of them has */
+#define MAX_EXTENDED_TABLES	1024
+
 #define PARTITION_EMPTY		0x00
 #define PARTITION_FAT12		0x01
 #define PARTITION_FAT16_SM	0x04
@@ -1150,7 +1153,8 @@ raw_part_parse (const PedDisk* disk, const DosRawPartition* raw_part,
 }
 
 static int
-read_table (PedDisk* disk, PedSector sector, int is_extended_table)
+read_table (PedDisk* disk, PedSector sector, int is_extended_table,
+	    int* n_tables)
 {
 	int			i;
 	DosRawTable*		table;
@@ -1237,7 +1241,7 @@ read_table (PedDisk* disk, PedSector sector, int is_extended_table)
 
 		/* non-nested extended partition */
 		if (part->type == PED_PARTITION_EXTENDED) {
-			if (!read_table (disk, part->geom.start, 1))
+			if (!read_table (disk, part->geom.start, 1, n_tables))
 				goto error;
 		}
 	}
@@ -1260,7 +1264,19 @@ read_table (PedDisk* disk, PedSector sector, int is_extended_table)
 				 */
 				continue;
 			}
-			if (!read_table (disk, part_start, 1))
+			if (++*n_tables > MAX_EXTENDED_TABLES) {
+				/* a longer way round than the one above */
+				if (ped_exception_throw (
+					PED_EXCEPTION_ERROR,
+					PED_EXCEPTION_IGNORE_CANCEL,
+					_("Invalid partition table - recursive "
+					"partition on %s."),
+					disk->dev->path)
+						!= PED_EXCEPTION_IGNORE)
+					goto error;
+				break;
+			}
+			if (!read_table (disk, part_start, 1, n_tables))
 				goto error;
 		}
 	}
@@ -1282,7 +1298,8 @@ msdos_read (PedDisk* disk)
 	PED_ASSERT (disk->dev != NULL);
 
 	ped_disk_delete_all (disk);
-	if (!read_table (disk, 0, 0))
+	int n_tables = 0;
+	if (!read_table (disk, 0, 0, &n_tables))
 		return 0;
 
 #ifndef DISCOVER_ONLY
-- 
2.43.0


From 69de442cad40b4d02120565960d01b09f475b7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:15 +0000
Subject: [PATCH 048/148] fix: msdos: no assertion for a logical partition
 without room for its metadata

---
 libparted/labels/dos.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 70f74ce..903ecd3 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -2420,7 +2420,10 @@ add_logical_part_metadata (PedDisk* disk, const PedPartition* log_part)
 	if (log_part->num == 5 && metadata_length < bios_geom.sectors)
 		return 1;
 
-	PED_ASSERT (metadata_length > 0);
+	/* no room: the table on disk has overlapping partitions, and the user
+	 * wants to see it nevertheless */
+	if (metadata_length <= 0)
+		return 1;
 
 	return add_metadata_part (disk, PED_PARTITION_LOGICAL,
 				  metadata_start, metadata_end);
-- 
2.43.0


From 72375d1cae6899460c3bb613432d0289b1222b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:53 +0000
Subject: [PATCH 049/148] fix: gpt: open the device to get the supported
 partition count

---
 libparted/labels/gpt.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 3edeb81..0cfff60 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -1855,16 +1855,26 @@ static bool
 gpt_get_max_supported_partition_count (const PedDisk *disk, int *max_n)
 {
   GuidPartitionTableHeader_t *pth = NULL;
-  uint8_t *pth_raw = ped_malloc (pth_get_size (disk->dev));
+  uint8_t *pth_raw = ped_malloc (disk->dev->sector_size);
 
+  if (pth_raw == NULL)
+    return false;
+  if (!ped_device_open (disk->dev))
+    {
+      free (pth_raw);
+      return false;
+    }
   if (ped_device_read (disk->dev, pth_raw, 1, GPT_HEADER_SECTORS)
       || ped_device_read (disk->dev, pth_raw,
-                          disk->dev->length, GPT_HEADER_SECTORS))
+                          disk->dev->length - 1, GPT_HEADER_SECTORS))
     pth = pth_new_from_raw (disk->dev, pth_raw);
   free (pth_raw);
 
   if (pth == NULL)
-    return false;
+    {
+      ped_device_close (disk->dev);
+      return false;
+    }
 
   if (!_header_is_valid (disk, pth, 1))
     {
@@ -1876,6 +1886,7 @@ gpt_get_max_supported_partition_count (const PedDisk *disk, int *max_n)
   *max_n = (disk->dev->sector_size * (PED_LE64_TO_CPU (pth->FirstUsableLBA) - 2)
             / PED_LE32_TO_CPU (pth->SizeOfPartitionEntry));
   pth_free (pth);
+  ped_device_close (disk->dev);
   return true;
 }
 
-- 
2.43.0


From 460693b4a5b4707fa1aa5f504abac809187fb0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:53 +0000
Subject: [PATCH 050/148] fix: gpt: a header with an absurd number of entries
 is not valid

---
 libparted/labels/gpt.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 0cfff60..684c3f4 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -718,6 +718,10 @@ _header_is_valid (PedDisk const *disk, GuidPartitionTableHeader_t *gpt,
             && pe_size <= (UINT32_MAX >> 4)))
     return 0;
 
+  uint32_t pe_count = PED_LE32_TO_CPU (gpt->NumberOfPartitionEntries);
+  if (pe_count < 1 || pe_count > 8192)
+    return 0;
+
   if (PED_LE64_TO_CPU (gpt->MyLBA) != my_lba)
     return 0;
 
@@ -847,9 +851,6 @@ _parse_header (PedDisk *disk, const GuidPartitionTableHeader_t *gpt,
 
   gpt_disk_data->entry_count
     = PED_LE32_TO_CPU (gpt->NumberOfPartitionEntries);
-  PED_ASSERT (gpt_disk_data->entry_count > 0);
-  PED_ASSERT (gpt_disk_data->entry_count <= 8192);
-
   gpt_disk_data->uuid = gpt->DiskGUID;
 
   return 1;
-- 
2.43.0


From 634258d639428b30766031a51024e8da0f2d55a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:53 +0000
Subject: [PATCH 051/148] fix: gpt: compute the size of the entry array without
 overflow

---
 libparted/labels/gpt.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 684c3f4..b125a11 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -650,7 +650,13 @@ gpt_read_PE_array (PedDisk const *disk, GuidPartitionTableHeader_t const *gpt,
                    size_t *ptes_bytes)
 {
   uint32_t p_ent_size = PED_LE32_TO_CPU (gpt->SizeOfPartitionEntry);
-  *ptes_bytes = p_ent_size * PED_LE32_TO_CPU(gpt->NumberOfPartitionEntries);
+  uint32_t p_ent_count = PED_LE32_TO_CPU (gpt->NumberOfPartitionEntries);
+  if (xalloc_oversized (p_ent_count, p_ent_size))
+    {
+      errno = ENOMEM;
+      return NULL;
+    }
+  *ptes_bytes = (size_t) p_ent_size * p_ent_count;
   size_t ptes_sectors = ped_div_round_up (*ptes_bytes,
                                           disk->dev->sector_size);
 
@@ -761,8 +767,8 @@ _header_is_valid (PedDisk const *disk, GuidPartitionTableHeader_t *gpt,
 static PedSector
 _ptes_sectors(PedDisk const *disk, GuidPartitionTableHeader_t const *gpt)
 {
-  size_t ptes_bytes = PED_LE32_TO_CPU (gpt->SizeOfPartitionEntry) *
-                      PED_LE32_TO_CPU (gpt->NumberOfPartitionEntries);
+  uint64_t ptes_bytes = (uint64_t) PED_LE32_TO_CPU (gpt->SizeOfPartitionEntry) *
+                        PED_LE32_TO_CPU (gpt->NumberOfPartitionEntries);
   /* Minimum amount of space reserved is 128 128 byte entries */
   if (ptes_bytes < 128*128)
     ptes_bytes = 128*128;
@@ -1102,7 +1108,7 @@ gpt_read (PedDisk *disk)
   for (i = 0; i < gpt_disk_data->entry_count; i++)
     {
       GuidPartitionEntry_t *pte
-        = (GuidPartitionEntry_t *) ((char *) ptes + i * p_ent_size);
+        = (GuidPartitionEntry_t *) ((char *) ptes + (size_t) i * p_ent_size);
       PedPartition *part;
 
       if (!guid_cmp (pte->PartitionTypeGuid, UNUSED_ENTRY_GUID))
-- 
2.43.0


From a0379504145b94b286a7e358b89e75bc734918cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:35 +0000
Subject: [PATCH 052/148] fix: gpt: do not read an entry array that is not
 inside the device

---
 libparted/labels/gpt.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index b125a11..68a06ce 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -665,12 +665,20 @@ gpt_read_PE_array (PedDisk const *disk, GuidPartitionTableHeader_t const *gpt,
       errno = ENOMEM;
       return NULL;
     }
+  /* it cannot be valid when it does not fit on the device */
+  uint64_t ptes_lba = PED_LE64_TO_CPU (gpt->PartitionEntryLBA);
+  if (ptes_lba >= (uint64_t) disk->dev->length
+      || ptes_sectors > disk->dev->length - ptes_lba)
+    {
+      errno = EINVAL;
+      return NULL;
+    }
+
   void *ptes = ped_malloc (ptes_sectors * disk->dev->sector_size);
   if (ptes == NULL)
     return NULL;
 
-  if (!ped_device_read (disk->dev, ptes,
-                        PED_LE64_TO_CPU (gpt->PartitionEntryLBA), ptes_sectors))
+  if (!ped_device_read (disk->dev, ptes, ptes_lba, ptes_sectors))
     {
       int saved_errno = errno;
       free (ptes);
-- 
2.43.0


From 19ff589fd90893507f977c0c98343fcda03573b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:35 +0000
Subject: [PATCH 053/148] fix: gpt: say why a table with an impossible usable
 area is refused

---
 libparted/labels/gpt.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 68a06ce..6b404a5 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -829,12 +829,18 @@ _parse_header (PedDisk *disk, const GuidPartitionTableHeader_t *gpt,
   last_usable_if_grown = disk->dev->length - 2 - _ptes_sectors(disk, gpt);
 
   if (last_usable <= first_usable
-      || disk->dev->length < last_usable)
-    return 0;
-
-  if (last_usable_if_grown <= first_usable
+      || disk->dev->length < last_usable
+      || last_usable_if_grown <= first_usable
       || disk->dev->length < last_usable_if_grown)
-    return 0;
+    {
+      ped_exception_throw
+        (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+         _("The usable area of the GPT on %s, from sector %llu to %llu, is "
+           "not valid for a device with %llu sectors."), disk->dev->path,
+         (unsigned long long) first_usable, (unsigned long long) last_usable,
+         (unsigned long long) disk->dev->length);
+      return 0;
+    }
 
   if (last_usable < last_usable_if_grown)
     {
-- 
2.43.0


From 9ec8591f8b224819e39f65a662918c1ca06ee017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:35 +0000
Subject: [PATCH 054/148] fix: gpt: refuse an entry with a negative start or
 end sector

---
 libparted/labels/gpt.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 6b404a5..8c56b42 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -883,6 +883,16 @@ _parse_part_entry (PedDisk *disk, GuidPartitionEntry_t *pte)
   GPTPartitionData *gpt_part_data;
   unsigned int i;
 
+  if (PED_LE64_TO_CPU (pte->StartingLBA) > INT64_MAX
+      || PED_LE64_TO_CPU (pte->EndingLBA) >= INT64_MAX)
+    {
+      ped_exception_throw
+        (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+         _("A GPT entry on %s has an invalid start or end sector."),
+         disk->dev->path);
+      return NULL;
+    }
+
   part = ped_partition_new (disk, PED_PARTITION_NORMAL, NULL,
                             PED_LE64_TO_CPU (pte->StartingLBA),
                             PED_LE64_TO_CPU (pte->EndingLBA));
-- 
2.43.0


From 79b393137ab25e1609f6088c08f0faf9b17e5890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:41 +0000
Subject: [PATCH 055/148] fix: mac: refuse a device descriptor with block size
 0

---
 libparted/labels/mac.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index b3606e1..9964d85 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -627,7 +627,8 @@ _disk_analyse_block_size (PedDisk* disk, MacRawDisk* raw_disk)
 {
 	PedSector	block_size;
 
-	if (PED_BE16_TO_CPU (raw_disk->block_size) % 512) {
+	if (PED_BE16_TO_CPU (raw_disk->block_size) % 512
+	    || PED_BE16_TO_CPU (raw_disk->block_size) == 0) {
 #ifndef DISCOVER_ONLY
 		ped_exception_throw (
 			PED_EXCEPTION_ERROR,
-- 
2.43.0


From b4dc91a44bcddd458f1a7f7dc2aef2809e4b9e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:41 +0000
Subject: [PATCH 056/148] fix: mac: pass all arguments of the "conflicting
 sizes" message

---
 libparted/labels/mac.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 9964d85..790e10f 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -776,7 +776,7 @@ mac_read (PedDisk* disk)
 				_("Conflicting partition map entry sizes!  "
 				  "Entry 1 says it is %d, but entry %d says "
 				  "it is %d!"),
-				last_part_entry_num,
+				last_part_entry_num, num,
 				_rawpart_get_partmap_size (raw_part, disk))
 					!= PED_EXCEPTION_IGNORE)
 				goto error_delete_all;
-- 
2.43.0


From 3fcb0816553737392693391a77edfa157feda5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:41 +0000
Subject: [PATCH 057/148] fix: mac: refuse a partition map that is larger than
 the device

---
 libparted/labels/mac.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 790e10f..2bfaaaa 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -765,9 +765,21 @@ mac_read (PedDisk* disk)
 		if (!_rawpart_check_signature (raw_part))
 			continue;
 
-		if (num == 1)
+		if (num == 1) {
 			last_part_entry_num
 				= _rawpart_get_partmap_size (raw_part, disk);
+			if (last_part_entry_num
+			    >= disk->dev->length / ghost_size) {
+				ped_exception_throw (
+					PED_EXCEPTION_ERROR,
+					PED_EXCEPTION_CANCEL,
+					_("The partition map claims to have "
+					  "%d entries, more than fit on the "
+					  "device."),
+					last_part_entry_num);
+				goto error_delete_all;
+			}
+		}
 		if (_rawpart_get_partmap_size (raw_part, disk)
 				!= last_part_entry_num) {
 			if (ped_exception_throw (
-- 
2.43.0


From f1ee0c8be6440030cf4a9644ad5de047623680f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:41 +0000
Subject: [PATCH 058/148] fix: mac: do not write more entries than the
 partition map has

---
 libparted/labels/mac.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 2bfaaaa..ea2e761 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -1074,6 +1074,10 @@ mac_write (PedDisk* disk)
 			goto error;
 	}
 
+	if (mac_disk_data->last_part_entry_num
+	    > mac_disk_data->part_map_entry_count)
+		goto error_too_small;
+
 	mac_driverdata = ped_malloc(sizeof(MacDiskData));
 	if (!mac_driverdata)
 		goto error;
@@ -1101,6 +1105,11 @@ mac_write (PedDisk* disk)
 		if (part->type != PED_PARTITION_FREESPACE)
 			continue;
 		num = _get_first_empty_part_entry (disk, part_map);
+		if (!num) {
+			free (part_map);
+			free (mac_driverdata);
+			goto error_too_small;
+		}
 		if (!_generate_raw_freespace_part (disk, &part->geom, num,
 						   part_map))
 			goto error_free_part_map;
@@ -1128,6 +1137,14 @@ error_free_driverdata:
 	free (mac_driverdata);
 error:
 	return 0;
+
+error_too_small:
+	ped_exception_throw (
+		PED_EXCEPTION_ERROR,
+		PED_EXCEPTION_CANCEL,
+		_("The partition map is too small for the partitions and the "
+		  "free space between them."));
+	return 0;
 }
 #endif /* !DISCOVER_ONLY */
 
-- 
2.43.0


From 2d2fdba3969b461aec6482bc2712c5758121c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:37 +0000
Subject: [PATCH 059/148] fix: mac: do not write a partition map that is larger
 than the device

---
 libparted/labels/mac.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index ea2e761..2f249ac 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -1078,6 +1078,14 @@ mac_write (PedDisk* disk)
 	    > mac_disk_data->part_map_entry_count)
 		goto error_too_small;
 
+	if (mac_disk_data->part_map_entry_count >= disk->dev->length) {
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_CANCEL,
+			_("The partition map is not inside the device."));
+		goto error;
+	}
+
 	mac_driverdata = ped_malloc(sizeof(MacDiskData));
 	if (!mac_driverdata)
 		goto error;
-- 
2.43.0


From 3f14899f5cc8fbdd13a356585b1e9da81d479d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:37 +0000
Subject: [PATCH 060/148] fix: amiga: do not checksum beyond the end of a block

---
 libparted/labels/rdb.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 34107cf..fac40ff 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -141,7 +141,9 @@ _amiga_checksum (struct AmigaBlock *blk) {
 	sum = PED_BE32_TO_CPU (rdb[0]);
 	end = PED_BE32_TO_CPU (rdb[1]);
 
-	if (end > PED_SECTOR_SIZE_DEFAULT) end = PED_SECTOR_SIZE_DEFAULT;
+	/* it counts 32-bit words, not bytes */
+	if (end > PED_SECTOR_SIZE_DEFAULT / (int) sizeof *rdb)
+		end = PED_SECTOR_SIZE_DEFAULT / sizeof *rdb;
 
 	for (i = 1; i < end; i++) sum += PED_BE32_TO_CPU (rdb[i]);
 
-- 
2.43.0


From 4dcd7d73ce6bf1eee00eef035e5c72a94741250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:37 +0000
Subject: [PATCH 061/148] fix: amiga: do not trust the length of the drive name

---
 libparted/labels/rdb.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index fac40ff..8afe793 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -51,9 +51,11 @@ static void _amiga_set_bstr (const char *cstr, char *bstr, int maxsize) {
 	bstr[0] = size;
 	for (i = 0; i<size; i++) bstr[i+1] = cstr[i];
 }
-static const char * _amiga_get_bstr (char * bstr) {
+static const char * _amiga_get_bstr (char * bstr, int maxsize) {
 	char * cstr = bstr + 1;
-	int size = bstr[0];
+	int size = (unsigned char) bstr[0];
+
+	if (size >= maxsize) size = maxsize - 1;
 
 	cstr[size] = '\0';
 	return cstr;
@@ -1015,7 +1017,7 @@ amiga_partition_get_name (const PedPartition* part)
 
 	partition = PART(part->disk_specific);
 
-	return _amiga_get_bstr(partition->pb_DriveName);
+	return _amiga_get_bstr(partition->pb_DriveName, 32);
 }
 
 static PedAlignment*
-- 
2.43.0


From 842ebb59d5fb7ac19bc441d3b2f752478c4d099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:37 +0000
Subject: [PATCH 062/148] fix: amiga: refuse an impossible geometry

---
 libparted/labels/rdb.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 8afe793..ef3b417 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -491,13 +491,22 @@ amiga_read (PedDisk* disk)
 		return 0;
 	}
 
+	cylblocks = (PedSector) PED_BE32_TO_CPU (rdb->rdb_Heads) *
+		(PedSector) PED_BE32_TO_CPU (rdb->rdb_Sectors);
+	if (cylblocks < 1 || cylblocks > disk->dev->length
+	    || PED_BE32_TO_CPU (rdb->rdb_Cylinders) > INT_MAX
+	    || PED_BE32_TO_CPU (rdb->rdb_Heads) > INT_MAX
+	    || PED_BE32_TO_CPU (rdb->rdb_Sectors) > INT_MAX) {
+		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+			_("The geometry in the rigid disk block is not valid."));
+		return 0;
+	}
+
 	/* Let's copy the rdb read geometry to the dev */
 	/* FIXME: should this go into disk->dev->bios_geom instead? */
 	disk->dev->hw_geom.cylinders = PED_BE32_TO_CPU (rdb->rdb_Cylinders);
 	disk->dev->hw_geom.heads = PED_BE32_TO_CPU (rdb->rdb_Heads);
 	disk->dev->hw_geom.sectors = PED_BE32_TO_CPU (rdb->rdb_Sectors);
-	cylblocks = (PedSector) PED_BE32_TO_CPU (rdb->rdb_Heads) *
-		(PedSector) PED_BE32_TO_CPU (rdb->rdb_Sectors);
 
 	/* Remove all partitions in the former in memory table */
 	ped_disk_delete_all (disk);
-- 
2.43.0


From 930207b647b43ef89a7141c0e1dc60e1b4bc9c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:37 +0000
Subject: [PATCH 063/148] fix: amiga: look at all file system headers when
 searching free blocks

---
 libparted/labels/rdb.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index ef3b417..2afddcb 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -616,9 +616,12 @@ _amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
 		}
 		table[next] = type;
 		if (PED_BE32_TO_CPU(block->lk_ID) == IDNAME_FILESYSHEADER) {
+			/* the list of its segments overwrites the block */
+			uint32_t link = block->lk_Next;
 			if (_amiga_find_free_blocks(disk, table, block,
 				PED_BE32_TO_CPU(LNK2(block)->lk2_Linked),
 				IDNAME_LOADSEG) == 0) return 0;
+			block->lk_Next = link;
 		}
 	}
 	return 1;
-- 
2.43.0


From ca41eb7a3b553511c0dca45d538817d0b01e113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:37 +0000
Subject: [PATCH 064/148] fix: amiga: stay inside the area of the rigid disk
 block

---
 libparted/labels/rdb.c | 63 ++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 2afddcb..a32e2b1 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -573,7 +573,7 @@ amiga_read (PedDisk* disk)
 }
 
 static int
-_amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
+_amiga_find_free_blocks(const PedDisk *disk, uint32_t *table, size_t tab_size,
 	struct LinkedBlock *block, uint32_t first, uint32_t type)
 {
 	PedSector next;
@@ -582,10 +582,17 @@ _amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
 	PED_ASSERT(disk->dev != NULL);
 
 	for (next = first; next != LINK_END; next = PED_BE32_TO_CPU(block->lk_Next)) {
+		if (next >= tab_size) {
+			ped_exception_throw(PED_EXCEPTION_ERROR,
+				PED_EXCEPTION_CANCEL,
+				_("%s : Block %lld of the %s list is outside the area of the rigid disk block."),
+				__func__, (long long) next, _amiga_block_id(type));
+			return 0;
+		}
 		if (table[next] != IDNAME_FREE) {
 			switch (ped_exception_throw(PED_EXCEPTION_ERROR,
 				PED_EXCEPTION_FIX | PED_EXCEPTION_IGNORE | PED_EXCEPTION_CANCEL,
-				_("%s : Loop detected at block %d."), __func__, next))
+				_("%s : Loop detected at block %lld."), __func__, (long long) next))
 			{
 				case PED_EXCEPTION_CANCEL :
 					return 0;
@@ -604,8 +611,8 @@ _amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
 		if (PED_BE32_TO_CPU(block->lk_ID) != type) {
 			switch (ped_exception_throw(PED_EXCEPTION_ERROR,
 				PED_EXCEPTION_CANCEL,
-				_("%s : The %s list seems bad at block %s."),
-				__func__, _amiga_block_id(PED_BE32_TO_CPU(block->lk_ID)), next))
+				_("%s : The %s list seems bad at block %lld."),
+				__func__, _amiga_block_id(PED_BE32_TO_CPU(block->lk_ID)), (long long) next))
 			{
 				/* TODO : to more subtile things here */
 				case PED_EXCEPTION_CANCEL :
@@ -618,7 +625,7 @@ _amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
 		if (PED_BE32_TO_CPU(block->lk_ID) == IDNAME_FILESYSHEADER) {
 			/* the list of its segments overwrites the block */
 			uint32_t link = block->lk_Next;
-			if (_amiga_find_free_blocks(disk, table, block,
+			if (_amiga_find_free_blocks(disk, table, tab_size, block,
 				PED_BE32_TO_CPU(LNK2(block)->lk2_Linked),
 				IDNAME_LOADSEG) == 0) return 0;
 			block->lk_Next = link;
@@ -627,10 +634,10 @@ _amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
 	return 1;
 }
 static uint32_t _GL_ATTRIBUTE_PURE
-_amiga_next_free_block(uint32_t *table, uint32_t start, uint32_t type) {
-	int i;
+_amiga_next_free_block(uint32_t *table, size_t tab_size, uint32_t start, uint32_t type) {
+	uint32_t i;
 
-	for (i = start; table[i] != type && table[i] != IDNAME_FREE; i++);
+	for (i = start; i < tab_size && table[i] != type && table[i] != IDNAME_FREE; i++);
 	return i;
 }
 /* Partition blocks are numbered by their place in the list, so the list has
@@ -655,7 +662,7 @@ amiga_write (const PedDisk* disk)
 	struct LinkedBlock *block;
 	struct PartitionBlock *partition;
 	PedPartition *part, *next_part;
-	PedSector cylblocks, first_hb, last_hb;
+	PedSector cylblocks, last_hb;
 	uint32_t * table;
 	uint32_t i;
 	uint32_t rdb_num, part_num, block_num, next_num;
@@ -683,14 +690,14 @@ amiga_write (const PedDisk* disk)
 
 	cylblocks = (PedSector) PED_BE32_TO_CPU (rdb->rdb_Heads) *
 		(PedSector) PED_BE32_TO_CPU (rdb->rdb_Sectors);
-	first_hb = (PedSector) PED_BE32_TO_CPU (rdb->rdb_RDBBlocksLo);
 	last_hb = (PedSector) PED_BE32_TO_CPU (rdb->rdb_RDBBlocksHi);
 
 	/* Allocate a free block table and initialize it.
-	   There must be room for at least RDB_NUM + 2 entries, since
-	   the first RDB_NUM+1 entries get IDNAME_RIGIDDISK, and the
-	   following one must have LINK_END to serve as sentinel.  */
-	size_t tab_size = 2 + MAX (last_hb - first_hb, rdb_num);
+	   There is one entry for each block up to the last hardblock, and
+	   the first RDB_NUM+1 entries get IDNAME_RIGIDDISK.  */
+	if (last_hb >= disk->dev->length)
+		last_hb = disk->dev->length - 1;
+	size_t tab_size = 1 + MAX (last_hb, rdb_num);
 	if (!(table = ped_malloc (tab_size * sizeof *table)))
 		return 0;
 
@@ -706,7 +713,7 @@ amiga_write (const PedDisk* disk)
 	}
 
 	/* And fill the free block table */
-	if (_amiga_find_free_blocks(disk, table, block,
+	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_BadBlockList), IDNAME_BADBLOCK) == 0)
 	{
 		ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -714,7 +721,7 @@ amiga_write (const PedDisk* disk)
 			_("%s : Failed to list bad blocks."), __func__);
 		goto error_free_table;
 	}
-	if (_amiga_find_free_blocks(disk, table, block,
+	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_PartitionList), IDNAME_PARTITION) == 0)
 	{
 		ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -722,7 +729,7 @@ amiga_write (const PedDisk* disk)
 			_("%s : Failed to list partition blocks."), __func__);
 		goto error_free_table;
 	}
-	if (_amiga_find_free_blocks(disk, table, block,
+	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_FileSysHeaderList), IDNAME_FILESYSHEADER) == 0)
 	{
 		ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -730,7 +737,7 @@ amiga_write (const PedDisk* disk)
 			_("%s : Failed to list file system blocks."), __func__);
 		goto error_free_table;
 	}
-	if (_amiga_find_free_blocks(disk, table, block,
+	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_BootBlockList), IDNAME_BOOT) == 0)
 	{
 		ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -739,7 +746,21 @@ amiga_write (const PedDisk* disk)
 		goto error_free_table;
 	}
 
-	block_num = part_num = _amiga_next_free_block(table, rdb_num+1,
+	/* Is there a block for each partition? */
+	block_num = rdb_num;
+	for (part = _amiga_next_real_partition(disk, NULL); part != NULL;
+	     part = _amiga_next_real_partition(disk, part)) {
+		block_num = _amiga_next_free_block(table, tab_size, block_num+1,
+						   IDNAME_PARTITION);
+		if (block_num >= tab_size) {
+			ped_exception_throw(PED_EXCEPTION_ERROR,
+				PED_EXCEPTION_CANCEL,
+				_("There is no room for so many partition blocks."));
+			goto error_free_table;
+		}
+	}
+
+	block_num = part_num = _amiga_next_free_block(table, tab_size, rdb_num+1,
                                                       IDNAME_PARTITION);
 	part = _amiga_next_real_partition(disk, NULL);
 	rdb->rdb_PartitionList = PED_CPU_TO_BE32(part ? part_num : LINK_END);
@@ -749,7 +770,7 @@ amiga_write (const PedDisk* disk)
 		PED_ASSERT((part->geom.end + 1) % cylblocks == 0);
 
 		next_part = _amiga_next_real_partition(disk, part);
-		next_num = _amiga_next_free_block(table, block_num+1, IDNAME_PARTITION);
+		next_num = _amiga_next_free_block(table, tab_size, block_num+1, IDNAME_PARTITION);
 
 		partition = PART(part->disk_specific);
 		if (next_part == NULL)
@@ -774,7 +795,7 @@ amiga_write (const PedDisk* disk)
 		}
 	}
 
-	if (block_num > PED_BE32_TO_CPU (rdb->rdb_HighRDSKBlock))
+	if (block_num < tab_size && block_num > PED_BE32_TO_CPU (rdb->rdb_HighRDSKBlock))
 		rdb->rdb_HighRDSKBlock = PED_CPU_TO_BE32(block_num);
 
 	_amiga_calculate_checksum(AMIGA(rdb));
-- 
2.43.0


From df8d0baccc52dda26e31067af57335ffcb61420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:17 +0000
Subject: [PATCH 065/148] fix: mac: never add a partition map over another
 partition

---
 libparted/labels/mac.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 2f249ac..255d8f1 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -223,7 +223,7 @@ _disk_add_part_map_entry (PedDisk* disk, int warn)
 	PedPartition*		new_part;
 	MacPartitionData*	mac_part_data;
 	PedSector		part_map_size;
-	PedConstraint*		constraint_any = ped_constraint_any (disk->dev);
+	PedConstraint*		constraint_exact = NULL;
 
 #ifndef DISCOVER_ONLY
 	if (warn && ped_exception_throw (
@@ -248,19 +248,20 @@ _disk_add_part_map_entry (PedDisk* disk, int warn)
 	strcpy (mac_part_data->volume_name, "Apple");
 	strcpy (mac_part_data->system_name, "Apple_partition_map");
 
-	if (!ped_disk_add_partition (disk, new_part, constraint_any))
+	constraint_exact = ped_constraint_exact (&new_part->geom);
+	if (!ped_disk_add_partition (disk, new_part, constraint_exact))
 		goto error_destroy_new_part;
 
 	mac_disk_data->part_map_entry_num = new_part->num;
 	mac_disk_data->part_map_entry_count
 		= new_part->geom.end - mac_disk_data->ghost_size + 1;
-	ped_constraint_destroy (constraint_any);
+	ped_constraint_destroy (constraint_exact);
 	return 1;
 
 error_destroy_new_part:
 	ped_partition_destroy (new_part);
 error:
-	ped_constraint_destroy (constraint_any);
+	ped_constraint_destroy (constraint_exact);
 	return 0;
 }
 
-- 
2.43.0


From 4654864e0af2ae14754d1c03fc2937fd423226b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:17 +0000
Subject: [PATCH 066/148] fix: amiga file systems: do not checksum beyond the
 end of a block

---
 libparted/fs/amiga/amiga.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libparted/fs/amiga/amiga.c b/libparted/fs/amiga/amiga.c
index 1a909fc..b5eef86 100644
--- a/libparted/fs/amiga/amiga.c
+++ b/libparted/fs/amiga/amiga.c
@@ -164,7 +164,9 @@ _amiga_checksum (struct AmigaBlock *blk) {
 	sum = PED_BE32_TO_CPU (rdb[0]);
 	end = PED_BE32_TO_CPU (rdb[1]);
 
-	if (end > PED_SECTOR_SIZE_DEFAULT) end = PED_SECTOR_SIZE_DEFAULT;
+	/* it counts 32-bit words, not bytes */
+	if (end > PED_SECTOR_SIZE_DEFAULT / (int) sizeof *rdb)
+		end = PED_SECTOR_SIZE_DEFAULT / sizeof *rdb;
 
 	for (i = 1; i < end; i++) sum += PED_BE32_TO_CPU (rdb[i]);
 
-- 
2.43.0


From f18a00004661efd5c42b0d167038311f855c9dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:12 +0000
Subject: [PATCH 067/148] fix: dvh: never add a volume header over another
 partition

---
 libparted/labels/dvh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 54a7329..6115926 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -192,7 +192,7 @@ _handle_no_volume_header (PedDisk* disk)
 			if (!part)
 				goto error;
 			part->num = PNUM_VOLHDR + 1;
-			constraint = ped_constraint_any (part->disk->dev);
+			constraint = ped_constraint_exact (&part->geom);
 			if (!constraint)
 				goto error_destroy_part;
 			if (!ped_disk_add_partition (disk, part, constraint))
-- 
2.43.0


From abfb54187222cf6df997a058ba7376fdd9343803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:12 +0000
Subject: [PATCH 068/148] fix: pc98: detect overlapping partitions when reading

---
 libparted/labels/pc98.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libparted/labels/pc98.c b/libparted/labels/pc98.c
index 4c6573e..0feaa5a 100644
--- a/libparted/labels/pc98.c
+++ b/libparted/labels/pc98.c
@@ -269,13 +269,10 @@ read_table (PedDisk* disk)
 {
 	int			i;
 	PC98RawTable		table;
-	PedConstraint*		constraint_any;
 
 	PED_ASSERT (disk != NULL);
 	PED_ASSERT (disk->dev != NULL);
 
-	constraint_any = ped_constraint_any (disk->dev);
-
 	if (!ped_device_read (disk->dev, (void*) &table, 0, 2))
 		goto error;
 
@@ -327,8 +324,14 @@ read_table (PedDisk* disk)
 
 		part->num = i + 1;
 
-		if (!ped_disk_add_partition (disk, part, constraint_any))
+		PedConstraint *constraint_exact
+			= ped_constraint_exact (&part->geom);
+		bool ok = ped_disk_add_partition (disk, part, constraint_exact);
+		ped_constraint_destroy (constraint_exact);
+		if (!ok) {
+			ped_partition_destroy (part);
 			goto error;
+		}
 
 		if (part->geom.start != part_start
 		    || part->geom.end != part_end) {
@@ -344,12 +347,10 @@ read_table (PedDisk* disk)
 		part->fs_type = ped_file_system_probe (&part->geom);
 	}
 
-	ped_constraint_destroy (constraint_any);
 	return 1;
 
 error:
 	ped_disk_delete_all (disk);
-	ped_constraint_destroy (constraint_any);
 	return 0;
 }
 
-- 
2.43.0


From 47f99c1564bfee5a87334268a6c57e782a28379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:12 +0000
Subject: [PATCH 069/148] fix: sun: say why a label with geometry 0 is refused

---
 libparted/labels/sun.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/sun.c b/libparted/labels/sun.c
index 853576b..f9c2d28 100644
--- a/libparted/labels/sun.c
+++ b/libparted/labels/sun.c
@@ -265,8 +265,19 @@ _check_geometry_sanity (PedDisk* disk, SunRawLabel* label)
 
 	if (!!PED_BE16_TO_CPU(label->pcylcount)
 	    * !!PED_BE16_TO_CPU(label->ntrks)
-	    * !!PED_BE16_TO_CPU(label->nsect) == 0)
+	    * !!PED_BE16_TO_CPU(label->nsect) == 0) {
+#ifndef DISCOVER_ONLY
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_CANCEL,
+			_("The disk CHS geometry (%d,%d,%d) stored on the "
+			  "disk label is not valid."),
+			PED_BE16_TO_CPU(label->pcylcount),
+			PED_BE16_TO_CPU(label->ntrks),
+			PED_BE16_TO_CPU(label->nsect));
+#endif
 		return 0;
+	}
 
 	if (PED_BE16_TO_CPU(label->nsect) != dev->bios_geom.sectors ||
 	    PED_BE16_TO_CPU(label->ntrks) != dev->bios_geom.heads) {
-- 
2.43.0


From 5e6a1f7f6ec1c991955e53637dca519e11b18fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:12 +0000
Subject: [PATCH 070/148] fix: sun: no assertion about the geometry of the
 label

---
 libparted/labels/sun.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libparted/labels/sun.c b/libparted/labels/sun.c
index f9c2d28..d5b07b3 100644
--- a/libparted/labels/sun.c
+++ b/libparted/labels/sun.c
@@ -187,7 +187,6 @@ sun_alloc (const PedDevice* dev)
 		goto error_free_disk;
 	sun_specific = (SunDiskData*) disk->disk_specific;
 
-	PED_ASSERT (bios_geom->cylinders == (PedSector) (dev->length / cyl_size));
 	sun_specific->length = ped_round_down_to (dev->length, cyl_size);
 
 	label = &sun_specific->raw_label;
-- 
2.43.0


From 38b2df5907380f6ffbb0ba814951407bba1c7aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:12 +0000
Subject: [PATCH 071/148] fix: sun: compute the cylinder size with 64 bits

---
 libparted/labels/sun.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libparted/labels/sun.c b/libparted/labels/sun.c
index d5b07b3..062e68f 100644
--- a/libparted/labels/sun.c
+++ b/libparted/labels/sun.c
@@ -175,7 +175,7 @@ sun_alloc (const PedDevice* dev)
 	SunRawLabel*	label;
 	SunDiskData*	sun_specific;
 	const PedCHSGeometry*	bios_geom = &dev->bios_geom;
-	PedSector	cyl_size = bios_geom->sectors * bios_geom->heads;
+	PedSector	cyl_size = (PedSector) bios_geom->sectors * bios_geom->heads;
 	PED_ASSERT (cyl_size != 0);
 
         disk = _ped_disk_alloc (dev, &sun_disk_type);
@@ -301,7 +301,7 @@ _check_geometry_sanity (PedDisk* disk, SunRawLabel* label)
 		dev->bios_geom.heads = PED_BE16_TO_CPU(label->ntrks);
 		dev->bios_geom.cylinders = PED_BE16_TO_CPU(label->pcylcount);
 
-		if (dev->bios_geom.sectors * dev->bios_geom.heads
+		if ((PedSector) dev->bios_geom.sectors * dev->bios_geom.heads
 			      	* dev->bios_geom.cylinders > dev->length) {
 			if (ped_exception_throw (
 				PED_EXCEPTION_WARNING,
@@ -345,7 +345,7 @@ sun_read (PedDisk* disk)
 	if (!_check_geometry_sanity (disk, label))
 		goto error;
 
-	block = disk->dev->bios_geom.sectors * disk->dev->bios_geom.heads;
+	block = (PedSector) disk->dev->bios_geom.sectors * disk->dev->bios_geom.heads;
 	disk_data->length = block * disk->dev->bios_geom.cylinders;
 
 	for (i = 0; i < SUN_DISK_MAXPARTITIONS; i++) {
@@ -462,7 +462,7 @@ sun_write (const PedDisk* disk)
 		label->infos[i].id = sun_data->type;
 		label->partitions[i].start_cylinder
 			= PED_CPU_TO_BE32 (part->geom.start
-				/ (disk->dev->bios_geom.sectors
+				/ ((PedSector) disk->dev->bios_geom.sectors
 				       	* disk->dev->bios_geom.heads));
 		label->partitions[i].num_sectors
 			= PED_CPU_TO_BE32 (part->geom.end
-- 
2.43.0


From bfc56fbaffdfdf1abb107163437b6360761ce3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:04 +0000
Subject: [PATCH 072/148] fix: parted: an unknown command is an error

---
 parted/ui.c | 1 -
 parted/ui.h | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/parted/ui.c b/parted/ui.c
index d6d1da4..57aaded 100644
--- a/parted/ui.c
+++ b/parted/ui.c
@@ -1600,7 +1600,6 @@ help_msg ()
         putchar ('\n');
         print_commands_help ();
         printf (_("\nReport bugs to %s\n"), PACKAGE_BUGREPORT);
-        exit (EXIT_SUCCESS);
 }
 
 void
diff --git a/parted/ui.h b/parted/ui.h
index 61a71de..393dd5d 100644
--- a/parted/ui.h
+++ b/parted/ui.h
@@ -83,7 +83,7 @@ extern int command_line_get_align_type (const char *prompt,
 extern int command_line_is_integer ();
 extern int command_line_is_sector ();
 
-extern void help_msg () __attribute__((__noreturn__));
+extern void help_msg ();
 
 extern void print_using_dev (PedDevice* dev);
 
-- 
2.43.0


From 2fb173b7fc1da15c719a1d4befd7951398ed341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:04 +0000
Subject: [PATCH 073/148] fix: parted: resizepart fails when the table cannot
 be written

---
 parted/parted.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parted/parted.c b/parted/parted.c
index fc2aeba..02cfbd9 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -1914,7 +1914,8 @@ do_resizepart (PedDevice** dev, PedDisk** diskp)
                             _("Shrinking a partition can cause data loss, " \
                               "are you sure you want to continue?")) != PED_EXCEPTION_YES)
                         goto error_destroy_constraint;
-        ped_disk_commit (disk);
+        if (!ped_disk_commit (disk))
+                goto error_destroy_constraint;
 
         if ((*dev)->type != PED_DEVICE_FILE)
                 disk_is_modified = 1;
-- 
2.43.0


From 81a49508fe025d561640f64367ffe5f1f201aa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:04 +0000
Subject: [PATCH 074/148] fix: parted: do not move an end that is left as it
 was

---
 parted/parted.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parted/parted.c b/parted/parted.c
index 02cfbd9..56813a4 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -640,6 +640,10 @@ _adjust_end_if_iec (PedSector* start, PedSector* end,
         PED_ASSERT(end);
         PED_ASSERT(range_end);
 
+        /* nothing was typed, or it was the default: *end is the sector meant */
+        if (!end_input)
+                return;
+
         /* 1s partition - do not move the end */
         if (*start == *end)
                 return;
-- 
2.43.0


From 8c2acb07fe32b9757b5fe267b5c0bff4bce12f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:11 +0000
Subject: [PATCH 075/148] fix: report failure when a partition cannot be named

---
 include/parted/disk.in.h | 2 +-
 libparted/disk.c         | 3 +--
 libparted/labels/dvh.c   | 4 +++-
 libparted/labels/gpt.c   | 5 +++--
 libparted/labels/mac.c   | 5 +++--
 libparted/labels/pc98.c  | 3 ++-
 libparted/labels/rdb.c   | 3 ++-
 7 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/parted/disk.in.h b/include/parted/disk.in.h
index 8f6a5c3..0d28031 100644
--- a/include/parted/disk.in.h
+++ b/include/parted/disk.in.h
@@ -255,7 +255,7 @@ struct _PedDiskOps {
         int (*partition_is_flag_available) (
                 const PedPartition* part,
                 PedPartitionFlag flag);
-        void (*partition_set_name) (PedPartition* part, const char* name);
+        int (*partition_set_name) (PedPartition* part, const char* name);
         const char* (*partition_get_name) (const PedPartition* part);
 
         int (*partition_set_type_id) (PedPartition* part, uint8_t id);
diff --git a/libparted/disk.c b/libparted/disk.c
index 5e5a051..b80678e 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -1562,8 +1562,7 @@ ped_partition_set_name (PedPartition* part, const char* name)
 		return 0;
 
 	PED_ASSERT (part->disk->type->ops->partition_set_name != NULL);
-	part->disk->type->ops->partition_set_name (part, name);
-	return 1;
+	return part->disk->type->ops->partition_set_name (part, name);
 }
 
 /**
diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 6115926..4f55140 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -726,7 +726,7 @@ dvh_partition_is_flag_available (const PedPartition* part,
 	return 1;
 }
 
-static void
+static int
 dvh_partition_set_name (PedPartition* part, const char* name)
 {
 	DVHPartData* dvh_part_data = part->disk_specific;
@@ -735,6 +735,7 @@ dvh_partition_set_name (PedPartition* part, const char* name)
 		/* Bootfile */
 		strncpy (dvh_part_data->name, name, VDNAMESIZE);
 		dvh_part_data->name[VDNAMESIZE] = 0;
+		return 1;
 	} else {
 #ifndef DISCOVER_ONLY
 		ped_exception_throw (
@@ -744,6 +745,7 @@ dvh_partition_set_name (PedPartition* part, const char* name)
                           "Only logical partitions (boot files) have a name."),
                         name);
 #endif
+		return 0;
 	}
 }
 
diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 8c56b42..b86b6a6 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -1734,7 +1734,7 @@ gpt_partition_is_flag_available (const PedPartition *part,
   return 0;
 }
 
-static void
+static int
 gpt_partition_set_name (PedPartition *part, const char *name)
 {
   GPTPartitionData *gpt_part_data = part->disk_specific;
@@ -1754,7 +1754,7 @@ gpt_partition_set_name (PedPartition *part, const char *name)
   iconv_close (conv);
   if (converted == (size_t) -1)
     goto err;
-  return;
+  return 1;
  err:
   ped_exception_throw (PED_EXCEPTION_WARNING,
                        PED_EXCEPTION_IGNORE,
@@ -1762,6 +1762,7 @@ gpt_partition_set_name (PedPartition *part, const char *name)
   /* From now on, report the name as it was stored.  */
   free (gpt_part_data->translated_name);
   gpt_part_data->translated_name = NULL;
+  return 1;
 }
 
 static const char *
diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 255d8f1..333da43 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -1409,7 +1409,7 @@ mac_partition_is_flag_available (
 	}
 }
 
-static void
+static int
 mac_partition_set_name (PedPartition* part, const char* name)
 {
 	MacPartitionData*	mac_data;
@@ -1427,7 +1427,7 @@ mac_partition_set_name (PedPartition* part, const char* name)
 			_("Changing the name of a root or swap partition "
 			  "will prevent Linux from recognising it as such."))
 				!= PED_EXCEPTION_IGNORE)
-			return;
+			return 0;
 		mac_data->is_root = mac_data->is_swap = 0;
 	}
 #endif
@@ -1443,6 +1443,7 @@ mac_partition_set_name (PedPartition* part, const char* name)
 			    && !strcmp (mac_data->volume_name, "root");
 	mac_data->is_swap = _is_unix (mac_data)
 			    && !strcmp (mac_data->volume_name, "swap");
+	return 1;
 }
 
 static const char* _GL_ATTRIBUTE_PURE
diff --git a/libparted/labels/pc98.c b/libparted/labels/pc98.c
index 0feaa5a..cf0a0b7 100644
--- a/libparted/labels/pc98.c
+++ b/libparted/labels/pc98.c
@@ -633,7 +633,7 @@ pc98_partition_is_flag_available (
 	}
 }
 
-static void
+static int
 pc98_partition_set_name (PedPartition* part, const char* name)
 {
 	PC98PartitionData*	pc98_data;
@@ -647,6 +647,7 @@ pc98_partition_set_name (PedPartition* part, const char* name)
 	pc98_data->name [16] = 0;
 	for (n = strlen (pc98_data->name); n && pc98_data->name[n - 1] == ' '; n--)
 		pc98_data->name [n - 1] = 0;
+	return 1;
 }
 
 static const char* _GL_ATTRIBUTE_PURE
diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index a32e2b1..d7063f5 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -1029,7 +1029,7 @@ amiga_partition_is_flag_available (const PedPartition* part,
 	}
 }
 
-static void
+static int
 amiga_partition_set_name (PedPartition* part, const char* name)
 {
 	struct PartitionBlock *partition;
@@ -1039,6 +1039,7 @@ amiga_partition_set_name (PedPartition* part, const char* name)
 
 	partition = PART(part->disk_specific);
 	_amiga_set_bstr(name, partition->pb_DriveName, 32);
+	return 1;
 }
 static const char*
 amiga_partition_get_name (const PedPartition* part)
-- 
2.43.0


From 8df91a1dd224b42036dd7c028ea9b49f7498af08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:40 +0000
Subject: [PATCH 076/148] fix: parted: print partition numbers of any length

---
 parted/parted.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parted/parted.c b/parted/parted.c
index 56813a4..f8956e6 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -1418,7 +1418,7 @@ do_print (PedDevice** dev, PedDisk** diskp)
                         part->type & PED_PARTITION_METADATA)
                             continue;
 
-                    tmp = ped_malloc (4);
+                    tmp = xmalloc (sizeof "-2147483648 ");
 
                     if (part->num >= 0)
                             sprintf (tmp, "%2d ", part->num);
-- 
2.43.0


From dafa16c4a39089b2f0434ada8ecd957b14439a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:41 +0000
Subject: [PATCH 077/148] fix: parted: reserve enough room for every row of a
 table

---
 parted/table.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parted/table.c b/parted/table.c
index 63c0e6a..f836ab9 100644
--- a/parted/table.c
+++ b/parted/table.c
@@ -175,8 +175,9 @@ static void table_render_row (Table* t, int rownum, int ncols, wchar_t** s)
         assert(t);
         assert(s != NULL);
 
+        /* A cell may have more characters than columns, or no known width.  */
         for (i = 0; i < ncols; ++i)
-                len += t->widths[i] + wcslen(DELIMITER);
+                len += t->widths[i] + wcslen(row[i]) + wcslen(DELIMITER);
 
         len += wcslen(COLSUFFIX);
 
@@ -190,8 +191,8 @@ static void table_render_row (Table* t, int rownum, int ncols, wchar_t** s)
                         break;
 
                 int j;
-                int nspaces = max(t->widths[i] - wcswidth(row[i], MAX_WIDTH),
-                                  0);
+                int width = max(wcswidth(row[i], MAX_WIDTH), 0);
+                int nspaces = max(t->widths[i] - width, 0);
                 wchar_t* pad = xmalloc ((nspaces + 1) * sizeof(*pad));
 
                 for (j = 0; j < nspaces; ++j)
-- 
2.43.0


From 1e47125674cc12e4c47c9b4f6d7ae877780cbad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:04 +0000
Subject: [PATCH 078/148] fix: parted: print names that are not valid in the
 locale

---
 parted/strlist.c | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/parted/strlist.c b/parted/strlist.c
index c4cb351..2ed861f 100644
--- a/parted/strlist.c
+++ b/parted/strlist.c
@@ -101,27 +101,39 @@ wchar_strdup (const wchar_t* str)
 static wchar_t*
 gettext_to_wchar (const char* str)
 {
-	int		count;
+	size_t		len;
 	wchar_t*	result;
+	size_t		n = 0;
 	size_t		status;
 	mbstate_t	ps;
+	mbstate_t	out_ps;
+	char		out[MB_LEN_MAX];
 
-	count = strlen (str) + 1;
-	result = malloc (count * sizeof (wchar_t));
-	if (!result)
-		goto error;
+	len = strlen (str) + 1;
+	result = xmalloc (len * sizeof (wchar_t));
 
 	memset(&ps, 0, sizeof (ps));
-	status = mbsrtowcs(result, &str, count, &ps);
-	if (str != NULL)
-		goto error;
+	while (*str) {
+		status = mbrtowc (&result[n], str, len, &ps);
+		memset(&out_ps, 0, sizeof (out_ps));
+		if (status == (size_t) -1 || status == (size_t) -2
+		    || wcrtomb (out, result[n], &out_ps) == (size_t) -1) {
+			/* Not every string (the name of a partition, say)
+			 * is valid in the encoding of the locale, and
+			 * can be printed.
+			 */
+			result[n] = L'?';
+			memset(&ps, 0, sizeof (ps));
+			status = 1;
+		}
+		n++;
+		str += status;
+		len -= status;
+	}
+	result[n] = L'\0';
 
-	result = xrealloc (result, (status + 1) * sizeof (wchar_t));
+	result = xrealloc (result, (n + 1) * sizeof (wchar_t));
 	return result;
-
-error:
-	fprintf (stderr, "Error during translation: %s\n", strerror (errno));
-	exit (EXIT_FAILURE);
 }
 
 #else /* ENABLE_NLS */
-- 
2.43.0


From d362eed05529bed19969df51818d0d0ddac8878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:04 +0000
Subject: [PATCH 079/148] fix: parted: print devices: do not keep a disk whose
 device is freed

---
 parted/parted.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parted/parted.c b/parted/parted.c
index f8956e6..e128e6d 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -1339,6 +1339,10 @@ do_print (PedDevice** dev, PedDisk** diskp)
                         free (end);
                 }
 
+                if (*diskp) {
+                        ped_disk_destroy (*diskp);
+                        *diskp = NULL;
+                }
                 dev_name = xstrdup ((*dev)->path);
                 ped_device_free_all ();
 
-- 
2.43.0


From 9a2833bfbecf1132eb437a49c1302a0464af6e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:24 +0000
Subject: [PATCH 080/148] fix: parted: what follows a number makes it no number

---
 parted/ui.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parted/ui.c b/parted/ui.c
index 57aaded..422212b 100644
--- a/parted/ui.c
+++ b/parted/ui.c
@@ -935,9 +935,11 @@ command_line_get_integer (const char* prompt, int* value)
         if (!input)
                 return 0;
 
+        char*    rest;
+
         errno = 0;
-        ret = strtol (input, (char**) NULL, 10);
-        if (errno)
+        ret = strtol (input, &rest, 10);
+        if (errno || rest == input || !_str_is_spaces (rest))
                 goto error;
 
         if ((ret > INT_MAX) || (ret < INT_MIN))
-- 
2.43.0


From 7efc2cd3bc16ef0829516e83789456336afbfbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:31 +0000
Subject: [PATCH 081/148] fix: parted: check the whole of a type id

---
 parted/parted.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parted/parted.c b/parted/parted.c
index e128e6d..fcd077c 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -970,8 +970,10 @@ do_type (PedDevice** dev, PedDisk** diskp)
                 if (!input)
                     goto error;
 
-                unsigned int tmp = strtol (input, (char**) NULL, 16);
-                if (tmp < 0x01 || tmp > 0xff) {
+                char* rest;
+                long tmp = strtol (input, &rest, 16);
+                _strip_trailing_spaces (rest);
+                if (*rest || tmp < 0x01 || tmp > 0xff) {
                         ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
                                              _("Invalid type-id."));
                         goto error_free_input;
-- 
2.43.0


From 2df500c47fa42b1af4027c162052377334136417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:38 +0000
Subject: [PATCH 082/148] fix: parted: a long word of a command line is one
 word

---
 parted/ui.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parted/ui.c b/parted/ui.c
index 422212b..31c6840 100644
--- a/parted/ui.c
+++ b/parted/ui.c
@@ -36,6 +36,7 @@
 #include "strlist.h"
 #include "ui.h"
 #include "error.h"
+#include "xalloc.h"
 
 #define N_(String) String
 #if ENABLE_NLS
@@ -727,7 +728,7 @@ command_line_push_line (const char* line, int multi_word)
         int     quoted = 0;
         int     quotes_empty = 0;
         char    quote_char = 0;
-        char    this_word [256];
+        char*   this_word = xmalloc (strlen (line) + 1);
         int     i;
 
         do {
@@ -735,7 +736,7 @@ command_line_push_line (const char* line, int multi_word)
                         line++;
 
                 i = 0;
-                for (; *line && i < sizeof (this_word) - 1; line++) {
+                for (; *line; line++) {
                         if (*line == ' ' && !quoted) {
                                 if (multi_word)
                                         break;
@@ -772,6 +773,8 @@ command_line_push_line (const char* line, int multi_word)
                         command_line_push_word (this_word);
                 }
         } while (*line && multi_word);
+
+        free (this_word);
 }
 
 static char*
-- 
2.43.0


From 8628ed18a86a3d668837aedc1f35ad75d5ca65ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:54 +0000
Subject: [PATCH 083/148] fix: unit: remove all spaces, and nothing but spaces

---
 libparted/unit.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/libparted/unit.c b/libparted/unit.c
index a63b98d..21ba39b 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -318,19 +318,17 @@ ped_unit_parse (const char* str, const PedDevice* dev, PedSector *sector,
 	return ped_unit_parse_custom (str, dev, default_unit, sector, range);
 }
 
-/* Inefficiently removes all spaces from a string, in-place. */
+/* Removes all spaces from a string, in-place. */
 static void
 strip_string (char* str)
 {
-	int i;
+	int i, j = 0;
 
 	for (i = 0; str[i] != 0; i++) {
-		if (isspace (str[i])) {
-			int j;
-			for (j = i + 1; str[j] != 0; j++)
-				str[j - 1] = str[j];
-		}
+		if (!isspace (str[i]))
+			str[j++] = str[i];
 	}
+	str[j] = 0;
 }
 
 
-- 
2.43.0


From e075cd34ca819351a14242916c1561ccc5ab0068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:54 +0000
Subject: [PATCH 084/148] fix: unit: do not take negative numbers and
 percentages for CHS

---
 libparted/unit.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libparted/unit.c b/libparted/unit.c
index 21ba39b..6ed2f3a 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -359,8 +359,16 @@ is_chs (const char* str)
 	int punct_count = 0;
 	int i = 0;
 
-	for (i = 0; str[i]; i++)
-		punct_count += ispunct (str[i]) != 0;
+	while (isspace (*str))
+		str++;
+	/* "-1.5GB" and "12.5%" have two of them as well.  */
+	for (i = 0; str[i]; i++) {
+		if (ispunct (str[i])) {
+			if (!i || str[i] == '%')
+				return 0;
+			punct_count++;
+		}
+	}
 	return punct_count == 2;
 }
 
-- 
2.43.0


From eeaa0ef85b923bd935412182ba3bfc79bb287d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:54 +0000
Subject: [PATCH 085/148] fix: unit: refuse numbers that are only read in part

---
 libparted/unit.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libparted/unit.c b/libparted/unit.c
index 6ed2f3a..4ca14f3 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -511,6 +511,7 @@ ped_unit_parse_custom (const char* str, const PedDevice* dev, PedUnit unit,
 	char*     copy;
 	char*     suffix;
 	double    num;
+	int       length;
 	long long unit_size;
 	PedSector radius;
 
@@ -526,7 +527,8 @@ ped_unit_parse_custom (const char* str, const PedDevice* dev, PedUnit unit,
 	unit = parse_unit_suffix (suffix, unit);
 	suffix[0] = 0;
 
-	if (sscanf (copy, "%lf", &num) != 1) {
+	/* No part of the number may remain unread, as in "1,5GB".  */
+	if (sscanf (copy, "%lf%n", &num, &length) != 1 || copy[length]) {
 		ped_exception_throw (
 				PED_EXCEPTION_ERROR,
 				PED_EXCEPTION_CANCEL,
-- 
2.43.0


From 3d5b4a96569da8b5f3bdf22d1fa1b2ca36e90338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:54 +0000
Subject: [PATCH 086/148] fix: unit: locations far outside the device do not
 overflow

---
 libparted/unit.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libparted/unit.c b/libparted/unit.c
index 4ca14f3..2a15378 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -58,6 +58,7 @@
 #include <ctype.h>
 #include <stdio.h>
 #include <float.h>
+#include <limits.h>
 
 #define N_(String) String
 #if ENABLE_NLS
@@ -511,6 +512,7 @@ ped_unit_parse_custom (const char* str, const PedDevice* dev, PedUnit unit,
 	char*     copy;
 	char*     suffix;
 	double    num;
+	double    where;
 	int       length;
 	long long unit_size;
 	PedSector radius;
@@ -561,7 +563,17 @@ ped_unit_parse_custom (const char* str, const PedDevice* dev, PedUnit unit,
 				radius = 0;
 	}
 
-	*sector = num * unit_size / dev->sector_size;
+	where = num * unit_size / dev->sector_size;
+	/* Neither here nor below may it overflow.  */
+	if (where > LLONG_MAX / 4 || where < LLONG_MIN / 4) {
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+			_("The location %s is outside of the "
+			  "device %s."),
+			str, dev->path);
+		goto error_free_copy;
+	}
+	*sector = where;
 	/* negative numbers count from the end */
 	if (copy[0] == '-')
 		*sector += dev->length;
-- 
2.43.0


From 4783b78c0643aa1b544c08f25c892e602322ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:58 +0000
Subject: [PATCH 087/148] fix: unit: cylinder numbers that do not fit do not
 overflow

---
 libparted/unit.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/libparted/unit.c b/libparted/unit.c
index 2a15378..6356193 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -378,7 +378,7 @@ parse_chs (const char* str, const PedDevice* dev, PedSector* sector,
 		PedGeometry** range)
 {
 	PedSector cyl_size = dev->bios_geom.heads * dev->bios_geom.sectors;
-	PedCHSGeometry chs;
+	long long cylinders, heads, sectors;
 
 	char* copy = ped_strdup (str);
 	if (!copy)
@@ -386,8 +386,7 @@ parse_chs (const char* str, const PedDevice* dev, PedSector* sector,
 	strip_string (copy);
 	remove_punct (copy);
 
-	if (sscanf (copy, "%d %d %d",
-		    &chs.cylinders, &chs.heads, &chs.sectors) != 3) {
+	if (sscanf (copy, "%lld %lld %lld", &cylinders, &heads, &sectors) != 3) {
 		ped_exception_throw (
 				PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 				_("\"%s\" has invalid syntax for locations."),
@@ -395,14 +394,14 @@ parse_chs (const char* str, const PedDevice* dev, PedSector* sector,
 		goto error_free_copy;
 	}
 
-	if (chs.heads >= dev->bios_geom.heads) {
+	if (heads >= dev->bios_geom.heads) {
 		ped_exception_throw (
 				PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 				_("The maximum head value is %d."),
 				dev->bios_geom.heads - 1);
 		goto error_free_copy;
 	}
-	if (chs.sectors >= dev->bios_geom.sectors) {
+	if (sectors >= dev->bios_geom.sectors) {
 		ped_exception_throw (
 				PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 				_("The maximum sector value is %d."),
@@ -410,11 +409,10 @@ parse_chs (const char* str, const PedDevice* dev, PedSector* sector,
 		goto error_free_copy;
 	}
 
-	*sector = 1LL * chs.cylinders * cyl_size
-		+ chs.heads * dev->bios_geom.sectors
-		+ chs.sectors;
-
-	if (*sector >= dev->length) {
+	if (cylinders > dev->length / cyl_size
+	    || (*sector = cylinders * cyl_size
+			  + heads * dev->bios_geom.sectors
+			  + sectors) >= dev->length) {
 		ped_exception_throw (
 				PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 				_("The location %s is outside of the "
-- 
2.43.0


From d117159be47afa46be82771bf911c0ed6f3019ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:30 +0000
Subject: [PATCH 088/148] fix: unit: refuse CHS locations that are only read in
 part

---
 libparted/unit.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libparted/unit.c b/libparted/unit.c
index 6356193..ce6d744 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -379,6 +379,7 @@ parse_chs (const char* str, const PedDevice* dev, PedSector* sector,
 {
 	PedSector cyl_size = dev->bios_geom.heads * dev->bios_geom.sectors;
 	long long cylinders, heads, sectors;
+	int length;
 
 	char* copy = ped_strdup (str);
 	if (!copy)
@@ -386,7 +387,9 @@ parse_chs (const char* str, const PedDevice* dev, PedSector* sector,
 	strip_string (copy);
 	remove_punct (copy);
 
-	if (sscanf (copy, "%lld %lld %lld", &cylinders, &heads, &sectors) != 3) {
+	if (sscanf (copy, "%lld %lld %lld %n",
+		    &cylinders, &heads, &sectors, &length) != 3
+	    || copy[length]) {
 		ped_exception_throw (
 				PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 				_("\"%s\" has invalid syntax for locations."),
-- 
2.43.0


From 0983103305fc82463b2f6705c75a30c77ef789f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:46 +0000
Subject: [PATCH 089/148] fix: fs: clear the end of the new region, not of the
 device, when a file system moves

---
 libparted/fs/r/filesys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/fs/r/filesys.c b/libparted/fs/r/filesys.c
index 856238c..3055966 100644
--- a/libparted/fs/r/filesys.c
+++ b/libparted/fs/r/filesys.c
@@ -232,7 +232,7 @@ ped_file_system_clobber (PedGeometry* geom)
   int ok = (len <= 5
 	    ? ptt_geom_clear_sectors (geom, 0, len)
 	    : (ptt_geom_clear_sectors (geom, 0, 3)
-	       && ptt_geom_clear_sectors (geom, geom->dev->length - 2, 2)));
+	       && ptt_geom_clear_sectors (geom, len - 2, 2)));
 
   ped_device_close (geom->dev);
   return !!ok;
-- 
2.43.0


From e8d9c1b34e0c8492cfd55309373213fa03869104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:46 +0000
Subject: [PATCH 090/148] fix: fat: read the cluster usage again after a resize

---
 libparted/fs/r/fat/resize.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/fs/r/fat/resize.c b/libparted/fs/r/fat/resize.c
index 78dede4..724937b 100644
--- a/libparted/fs/r/fat/resize.c
+++ b/libparted/fs/r/fat/resize.c
@@ -865,7 +865,8 @@ fat_resize (PedFileSystem* fs, PedGeometry* geom, PedTimer* timer)
 	if (!resize_context_assimilate (ctx))
 		goto error;
 
-	return 1;
+	/* fs describes the new file system now, and may be resized again */
+	return fat_collect_cluster_info (fs);
 
 error_abort_ctx:
 	resize_context_abort (ctx);
-- 
2.43.0


From f5ff864629abce73ed66512fd166bdb39f58bfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:59 +0000
Subject: [PATCH 091/148] fix: fat: FAT32 file systems have at least 65525
 clusters

---
 libparted/fs/r/fat/calc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/fs/r/fat/calc.c b/libparted/fs/r/fat/calc.c
index 4ba1030..238801f 100644
--- a/libparted/fs/r/fat/calc.c
+++ b/libparted/fs/r/fat/calc.c
@@ -77,7 +77,8 @@ fat_min_cluster_count (FatType fat_type) {
 		case FAT_TYPE_FAT16:
 			return fat_max_cluster_count (fat_type) / 2;
 
-		case FAT_TYPE_FAT32: return 0xfff0;
+		/* anything smaller is taken for a FAT16 file system */
+		case FAT_TYPE_FAT32: return 0xfff5;
 	}
 	return 0;
 }
-- 
2.43.0


From 93e970e10a7096f3870262b874ef98c798ea0556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:59 +0000
Subject: [PATCH 092/148] fix: fat: bigger FATs leave less room for clusters

---
 libparted/fs/r/fat/calc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libparted/fs/r/fat/calc.c b/libparted/fs/r/fat/calc.c
index 238801f..2e07bf1 100644
--- a/libparted/fs/r/fat/calc.c
+++ b/libparted/fs/r/fat/calc.c
@@ -212,6 +212,9 @@ calc_sizes (PedSector size, PedSector align, FatType fat_type,
 				          entries_per_sector (fat_type))) {
 		fat_space = ped_div_round_up (cluster_count + 2,
 					      entries_per_sector (fat_type));
+		/* the bigger FATs leave less room for clusters */
+		cluster_space = data_fat_space - 2 * fat_space;
+		cluster_count = cluster_space / cluster_sectors;
 	}
 
 	if (cluster_count > fat_max_cluster_count (fat_type)
-- 
2.43.0


From 55dae544964b9b30c39acfca227d84cb5da67791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:59 +0000
Subject: [PATCH 093/148] fix: fat: the root directory's size does not depend
 on the logical sector size

---
 libparted/fs/fat/bootsector.c   | 2 +-
 libparted/fs/r/fat/bootsector.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libparted/fs/fat/bootsector.c b/libparted/fs/fat/bootsector.c
index f02685b..15db7ab 100644
--- a/libparted/fs/fat/bootsector.c
+++ b/libparted/fs/fat/bootsector.c
@@ -230,7 +230,7 @@ fat_boot_sector_analyse (FatBootSector* bs, PedFileSystem* fs)
 			  + fs_info->fat_sectors * fs_info->fat_table_count;
 		fs_info->root_dir_sector_count
 			= fs_info->root_dir_entry_count * sizeof (FatDirEntry)
-			  / (512 * fs_info->logical_sector_size);
+			  / 512;
 		fs_info->cluster_offset
 			= fs_info->root_dir_offset
 			  + fs_info->root_dir_sector_count;
diff --git a/libparted/fs/r/fat/bootsector.c b/libparted/fs/r/fat/bootsector.c
index 85ccc0f..35fd356 100644
--- a/libparted/fs/r/fat/bootsector.c
+++ b/libparted/fs/r/fat/bootsector.c
@@ -227,7 +227,7 @@ fat_boot_sector_analyse (FatBootSector* bs, PedFileSystem* fs)
 			  + fs_info->fat_sectors * fs_info->fat_table_count;
 		fs_info->root_dir_sector_count
 			= fs_info->root_dir_entry_count * sizeof (FatDirEntry)
-			  / (512 * fs_info->logical_sector_size);
+			  / 512;
 		fs_info->cluster_offset
 			= fs_info->root_dir_offset
 			  + fs_info->root_dir_sector_count;
-- 
2.43.0


From 3dc417c23ea9fa6dbe2bd890ee1f58d19076febe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:59 +0000
Subject: [PATCH 094/148] fix: fat: path names of any length

---
 libparted/fs/r/fat/count.c    | 19 ++++++++++++++-----
 libparted/fs/r/fat/traverse.c | 21 ++++++++++++++-------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/libparted/fs/r/fat/count.c b/libparted/fs/r/fat/count.c
index e23404b..e9804cc 100644
--- a/libparted/fs/r/fat/count.c
+++ b/libparted/fs/r/fat/count.c
@@ -160,13 +160,17 @@ flag_traverse_dir (FatTraverseInfo* trav_info) {
 	PedFileSystem*		fs = trav_info->fs;
 	FatDirEntry*		this_entry;
 	FatTraverseInfo*	subdir_trav_info;
-	char			file_name [4096];
+	char*			file_name;
 	char*			file_name_start;
 	FatCluster		first_cluster;
 	PedSector		size;
 
 	PED_ASSERT (trav_info != NULL);
 
+	/* room for the directory's name and an 8.3 file name */
+	file_name = ped_malloc (strlen (trav_info->dir_name) + 13);
+	if (!file_name)
+		return 0;
 	strcpy (file_name, trav_info->dir_name);
 	file_name_start = file_name + strlen (file_name);
 
@@ -191,23 +195,28 @@ flag_traverse_dir (FatTraverseInfo* trav_info) {
 		if (fat_dir_entry_is_directory (this_entry)) {
 			if (!flag_traverse_fat (fs, file_name, first_cluster,
 						FAT_FLAG_DIRECTORY, size))
-				return 0;
+				goto error;
 
 			subdir_trav_info = fat_traverse_directory (trav_info,
 								   this_entry);
 			if (!subdir_trav_info)
-				return 0;
+				goto error;
 			if (!flag_traverse_dir (subdir_trav_info))
-				return 0;
+				goto error;
 		} else if (fat_dir_entry_is_file (this_entry)) {
 			if (!flag_traverse_fat (fs, file_name, first_cluster,
 						FAT_FLAG_FILE, size))
-				return 0;
+				goto error;
 		}
 	}
 
+	free (file_name);
 	fat_traverse_complete (trav_info);
 	return 1;
+
+error:
+	free (file_name);
+	return 0;
 }
 
 static void
diff --git a/libparted/fs/r/fat/traverse.c b/libparted/fs/r/fat/traverse.c
index 42eeff9..4ec6c21 100644
--- a/libparted/fs/r/fat/traverse.c
+++ b/libparted/fs/r/fat/traverse.c
@@ -29,8 +29,6 @@
 
 #define NO_CLUSTER -1
 
-static char tmp_buffer [4096];
-
 int _GL_ATTRIBUTE_PURE
 fat_traverse_entries_per_buffer (FatTraverseInfo* trav_info)
 {
@@ -191,14 +189,23 @@ fat_traverse_complete (FatTraverseInfo* trav_info)
 FatTraverseInfo*
 fat_traverse_directory (FatTraverseInfo *trav_info, FatDirEntry* parent)
 {
-	strcpy (tmp_buffer, trav_info->dir_name);
+	FatTraverseInfo*	result;
+	char*			dir_name;
+
+	/* room for the directory's name, an 8.3 file name and a backslash */
+	dir_name = ped_malloc (strlen (trav_info->dir_name) + 14);
+	if (!dir_name)
+		return NULL;
+	strcpy (dir_name, trav_info->dir_name);
 	fat_dir_entry_get_name (parent,
-				tmp_buffer + strlen (trav_info->dir_name));
-	strcat (tmp_buffer, "\\");
+				dir_name + strlen (trav_info->dir_name));
+	strcat (dir_name, "\\");
 
-	return fat_traverse_begin (trav_info->fs,
+	result = fat_traverse_begin (trav_info->fs,
 			fat_dir_entry_get_first_cluster (parent, trav_info->fs),
-			tmp_buffer);
+			dir_name);
+	free (dir_name);
+	return result;
 }
 
 FatDirEntry*
-- 
2.43.0


From 64f39f21026118fb58413007853eee88552a76e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:59 +0000
Subject: [PATCH 095/148] fix: fat: root directories larger than the buffer

---
 libparted/fs/r/fat/resize.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/libparted/fs/r/fat/resize.c b/libparted/fs/r/fat/resize.c
index 724937b..3c91a35 100644
--- a/libparted/fs/r/fat/resize.c
+++ b/libparted/fs/r/fat/resize.c
@@ -83,21 +83,25 @@ duplicate_legacy_root_dir (FatOpContext* ctx)
 {
 	FatSpecific*		old_fs_info = FAT_SPECIFIC (ctx->old_fs);
 	FatSpecific*		new_fs_info = FAT_SPECIFIC (ctx->new_fs);
+	char*			root_dir;
+	int			status;
 
 	PED_ASSERT (old_fs_info->root_dir_sector_count
 			== new_fs_info->root_dir_sector_count);
 
-	if (!ped_geometry_read (ctx->old_fs->geom, old_fs_info->buffer,
-				old_fs_info->root_dir_offset,
-				old_fs_info->root_dir_sector_count))
+	/* the root directory can be larger than the file system's buffer */
+	root_dir = ped_malloc (512 * old_fs_info->root_dir_sector_count);
+	if (!root_dir)
 		return 0;
 
-	if (!ped_geometry_write (ctx->new_fs->geom, old_fs_info->buffer,
-				 new_fs_info->root_dir_offset,
-				 new_fs_info->root_dir_sector_count))
-		return 0;
-
-	return 1;
+	status = ped_geometry_read (ctx->old_fs->geom, root_dir,
+				    old_fs_info->root_dir_offset,
+				    old_fs_info->root_dir_sector_count)
+		 && ped_geometry_write (ctx->new_fs->geom, root_dir,
+					new_fs_info->root_dir_offset,
+					new_fs_info->root_dir_sector_count);
+	free (root_dir);
+	return status;
 }
 
 /*
-- 
2.43.0


From f06d52941c3f2439ff21b2b92a5f03fdb1e3fea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:59 +0000
Subject: [PATCH 096/148] fix: fat: free the whole root directory when
 converting to FAT16

---
 libparted/fs/r/fat/resize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libparted/fs/r/fat/resize.c b/libparted/fs/r/fat/resize.c
index 3c91a35..dc950f9 100644
--- a/libparted/fs/r/fat/resize.c
+++ b/libparted/fs/r/fat/resize.c
@@ -274,12 +274,12 @@ free_root_dir (FatOpContext* ctx)
 	     old_cluster = fat_table_get (old_fs_info->fat, old_cluster)) {
 		FatFragment old_frag;
 		old_frag = fat_cluster_to_frag (ctx->old_fs, old_cluster);
-		for (i = 0; i < new_fs_info->cluster_frags; i++) {
+		for (i = 0; i < old_fs_info->cluster_frags; i++) {
 			FatFragment new_frag;
 			FatCluster new_clst;
 			new_frag = fat_op_context_map_fragment (ctx,
 								old_frag + i);
-			new_clst = fat_frag_to_cluster (ctx->old_fs, new_frag);
+			new_clst = fat_frag_to_cluster (ctx->new_fs, new_frag);
 			if (!fat_table_set_avail (new_fs_info->fat, new_clst))
 				return 0;
 		}
-- 
2.43.0


From 662d7b918fec640f2aeeb777b3393fe6762bd352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:59 +0000
Subject: [PATCH 097/148] fix: fat: resized file systems have 512 byte logical
 sectors

---
 libparted/fs/r/fat/resize.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libparted/fs/r/fat/resize.c b/libparted/fs/r/fat/resize.c
index dc950f9..5240552 100644
--- a/libparted/fs/r/fat/resize.c
+++ b/libparted/fs/r/fat/resize.c
@@ -675,7 +675,10 @@ create_resize_context (PedFileSystem* fs, const PedGeometry* new_geom)
 			new_geom->dev->sector_size);
 	}
 
-	new_fs_info->logical_sector_size = fs_info->logical_sector_size;
+	/* everything below is computed in 512 byte sectors, and might not be
+	 * a multiple of a larger logical sector
+	 */
+	new_fs_info->logical_sector_size = 1;
 	new_fs_info->sector_count = new_geom->length;
 
 	new_fs_info->sectors_per_track = fs_info->sectors_per_track;
-- 
2.43.0


From 1008b3cd5cbca61a429328b6feb70c3e58657d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:59 +0000
Subject: [PATCH 098/148] fix: fat: convert directories from their copies

---
 libparted/fs/r/fat/resize.c | 56 +++++++++++--------------------------
 1 file changed, 17 insertions(+), 39 deletions(-)

diff --git a/libparted/fs/r/fat/resize.c b/libparted/fs/r/fat/resize.c
index 5240552..58ab66c 100644
--- a/libparted/fs/r/fat/resize.c
+++ b/libparted/fs/r/fat/resize.c
@@ -144,8 +144,7 @@ static int
 fat_convert_directory (FatOpContext* ctx, FatTraverseInfo* old_trav,
 		       FatTraverseInfo* new_trav)
 {
-	FatTraverseInfo*	sub_old_dir_trav;
-	FatTraverseInfo*	sub_new_dir_trav;
+	FatTraverseInfo*	sub_dir_trav;
 	FatDirEntry*		new_dir_entry;
 	FatDirEntry*		old_dir_entry;
 	FatCluster		old_first_cluster;
@@ -158,12 +157,14 @@ fat_convert_directory (FatOpContext* ctx, FatTraverseInfo* old_trav,
 
 		new_dir_entry = fat_traverse_next_dir_entry (new_trav);
 		if (!new_dir_entry) {
-			return ped_exception_throw (PED_EXCEPTION_ERROR,
+			if (ped_exception_throw (PED_EXCEPTION_ERROR,
 				PED_EXCEPTION_IGNORE_CANCEL,
 				_("There's not enough room in the root "
 				  "directory for all of the files.  Either "
 				  "cancel, or ignore to lose the files."))
-					== PED_EXCEPTION_IGNORE;
+					!= PED_EXCEPTION_IGNORE)
+				return 0;
+			break;
 		}
 
 		*new_dir_entry = *old_dir_entry;
@@ -180,18 +181,14 @@ fat_convert_directory (FatOpContext* ctx, FatTraverseInfo* old_trav,
 
 		if (fat_dir_entry_is_directory (old_dir_entry)
 				&& old_dir_entry->name [0] != '.') {
-			sub_old_dir_trav
-			    = fat_traverse_directory (old_trav, old_dir_entry);
-			if (!sub_old_dir_trav) return 0;
-			sub_new_dir_trav
+			/* the original may be overwritten by now, so work on
+			 * the duplicate, like when there is no conversion
+			 */
+			sub_dir_trav
 			    = fat_traverse_directory (new_trav, new_dir_entry);
-			if (!sub_new_dir_trav) {
-				fat_traverse_complete (sub_old_dir_trav);
+			if (!sub_dir_trav)
 				return 0;
-			}
-
-			if (!fat_convert_directory (ctx, sub_old_dir_trav,
-						    sub_new_dir_trav))
+			if (!fat_construct_directory (ctx, sub_dir_trav))
 				return 0;
 		}
 	}
@@ -288,30 +285,6 @@ free_root_dir (FatOpContext* ctx)
 	return 1;
 }
 
-static int
-fat_clear_root_dir (PedFileSystem* fs)
-{
-	FatSpecific*	fs_info = FAT_SPECIFIC (fs);
-	int		i;
-
-	PED_ASSERT (fs_info->fat_type == FAT_TYPE_FAT16);
-	PED_ASSERT (fs_info->root_dir_sector_count);
-
-	memset (fs_info->buffer, 0, 512);
-
-	for (i = 0; i < fs_info->root_dir_sector_count; i++) {
-		if (!ped_geometry_write (fs->geom, fs_info->buffer,
-					 fs_info->root_dir_offset + i, 1)) {
-			if (ped_exception_throw (PED_EXCEPTION_ERROR,
-				PED_EXCEPTION_IGNORE_CANCEL,
-				_("Error writing to the root directory."))
-					== PED_EXCEPTION_CANCEL)
-				return 0;
-		}
-	}
-	return 1;
-}
-
 static int
 fat_construct_converted_tree (FatOpContext* ctx)
 {
@@ -327,10 +300,15 @@ fat_construct_converted_tree (FatOpContext* ctx)
 		old_trav_info = fat_traverse_begin (ctx->old_fs, FAT_ROOT,
 						    "\\");
 	} else {
-		fat_clear_root_dir (ctx->new_fs);
 		new_trav_info = fat_traverse_begin (ctx->new_fs, FAT_ROOT,
 						    "\\");
 		if (!new_trav_info) return 0;
+		/* whatever was there before isn't a directory.  It's written
+		 * once the old root directory, which may overlap it, was read
+		 */
+		memset (new_trav_info->dir_entries, 0,
+			new_trav_info->buffer_size);
+		fat_traverse_mark_dirty (new_trav_info);
 		old_trav_info = fat_traverse_begin (ctx->old_fs,
 					    old_fs_info->root_cluster, "\\");
 	}
-- 
2.43.0


From 21f5fc7e16b442625e2f488f1718eb7f882a7ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:34 +0000
Subject: [PATCH 099/148] fix: fat: check that the boot and info sectors were
 written

---
 libparted/fs/r/fat/resize.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libparted/fs/r/fat/resize.c b/libparted/fs/r/fat/resize.c
index 58ab66c..4e1cb2a 100644
--- a/libparted/fs/r/fat/resize.c
+++ b/libparted/fs/r/fat/resize.c
@@ -839,12 +839,18 @@ fat_resize (PedFileSystem* fs, PedGeometry* geom, PedTimer* timer)
 	if (!fat_table_write_all (new_fs_info->fat, new_fs))
 		goto error_abort_ctx;
 
-	_copy_hidden_sectors (ctx);
-	fat_boot_sector_generate (&new_fs_info->boot_sector, new_fs);
-	fat_boot_sector_write (new_fs_info->boot_sector, new_fs);
+	if (!_copy_hidden_sectors (ctx))
+		goto error_abort_ctx;
+	if (!fat_boot_sector_generate (&new_fs_info->boot_sector, new_fs))
+		goto error_abort_ctx;
+	if (!fat_boot_sector_write (new_fs_info->boot_sector, new_fs))
+		goto error_abort_ctx;
 	if (new_fs_info->fat_type == FAT_TYPE_FAT32) {
-		fat_info_sector_generate (&new_fs_info->info_sector, new_fs);
-		fat_info_sector_write (new_fs_info->info_sector, new_fs);
+		if (!fat_info_sector_generate (&new_fs_info->info_sector,
+					       new_fs))
+			goto error_abort_ctx;
+		if (!fat_info_sector_write (new_fs_info->info_sector, new_fs))
+			goto error_abort_ctx;
 	}
 
 	if (!resize_context_assimilate (ctx))
-- 
2.43.0


From 2c78284b14e476a1ffa2c1d6d6ca170ac5f03ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:40 +0000
Subject: [PATCH 100/148] fix: fat: report directories that can't be read or
 written

---
 libparted/fs/r/fat/count.c    |  8 ++++++--
 libparted/fs/r/fat/resize.c   | 20 +++++++++++++-------
 libparted/fs/r/fat/traverse.c | 24 +++++++++++++++++-------
 libparted/fs/r/fat/traverse.h |  1 +
 4 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/libparted/fs/r/fat/count.c b/libparted/fs/r/fat/count.c
index e9804cc..76dacdc 100644
--- a/libparted/fs/r/fat/count.c
+++ b/libparted/fs/r/fat/count.c
@@ -211,11 +211,11 @@ flag_traverse_dir (FatTraverseInfo* trav_info) {
 	}
 
 	free (file_name);
-	fat_traverse_complete (trav_info);
-	return 1;
+	return fat_traverse_complete (trav_info);
 
 error:
 	free (file_name);
+	fat_traverse_complete (trav_info);
 	return 0;
 }
 
@@ -249,6 +249,8 @@ fat_collect_cluster_info (PedFileSystem* fs) {
 	if (fs_info->fat_type == FAT_TYPE_FAT32) {
 		trav_info = fat_traverse_begin (fs, fs_info->root_cluster,
 						"\\");
+		if (!trav_info)
+			return 0;
 		if (!flag_traverse_dir (trav_info))
 			return 0;
 		if (!flag_traverse_fat (fs, "\\", fs_info->root_cluster,
@@ -256,6 +258,8 @@ fat_collect_cluster_info (PedFileSystem* fs) {
 			return 0;
 	} else {
 		trav_info = fat_traverse_begin (fs, FAT_ROOT, "\\");
+		if (!trav_info)
+			return 0;
 		if (!flag_traverse_dir (trav_info))
 			return 0;
 	}
diff --git a/libparted/fs/r/fat/resize.c b/libparted/fs/r/fat/resize.c
index 4e1cb2a..45bec6c 100644
--- a/libparted/fs/r/fat/resize.c
+++ b/libparted/fs/r/fat/resize.c
@@ -74,8 +74,7 @@ fat_construct_directory (FatOpContext* ctx, FatTraverseInfo* trav_info)
 		memset (dir_entry, 0, sizeof (FatDirEntry));
 		fat_traverse_mark_dirty (trav_info);
 	}
-	fat_traverse_complete (trav_info);
-	return 1;
+	return fat_traverse_complete (trav_info);
 }
 
 static int
@@ -115,6 +114,8 @@ fat_construct_legacy_root (FatOpContext* ctx)
 	if (!duplicate_legacy_root_dir (ctx))
 		return 0;
 	trav_info = fat_traverse_begin (ctx->new_fs, FAT_ROOT, "\\");
+	if (!trav_info)
+		return 0;
 	return fat_construct_directory (ctx, trav_info);
 }
 
@@ -129,8 +130,9 @@ fat_construct_root (FatOpContext* ctx)
 
 	trav_info = fat_traverse_begin (ctx->new_fs, new_fs_info->root_cluster,
 					"\\");
-	fat_construct_directory (ctx, trav_info);
-	return 1;
+	if (!trav_info)
+		return 0;
+	return fat_construct_directory (ctx, trav_info);
 }
 
 /* Converts the root directory between FAT16 and FAT32.  NOTE: this code
@@ -148,6 +150,7 @@ fat_convert_directory (FatOpContext* ctx, FatTraverseInfo* old_trav,
 	FatDirEntry*		new_dir_entry;
 	FatDirEntry*		old_dir_entry;
 	FatCluster		old_first_cluster;
+	int			status;
 
 	while ( (old_dir_entry = fat_traverse_next_dir_entry (old_trav)) ) {
 		if (fat_dir_entry_is_null_term (old_dir_entry))
@@ -157,6 +160,8 @@ fat_convert_directory (FatOpContext* ctx, FatTraverseInfo* old_trav,
 
 		new_dir_entry = fat_traverse_next_dir_entry (new_trav);
 		if (!new_dir_entry) {
+			if (new_trav->failed)
+				return 0;
 			if (ped_exception_throw (PED_EXCEPTION_ERROR,
 				PED_EXCEPTION_IGNORE_CANCEL,
 				_("There's not enough room in the root "
@@ -201,9 +206,10 @@ fat_convert_directory (FatOpContext* ctx, FatTraverseInfo* old_trav,
 		fat_traverse_mark_dirty (new_trav);
 	}
 
-	fat_traverse_complete (old_trav);
-	fat_traverse_complete (new_trav);
-	return 1;
+	status = fat_traverse_complete (old_trav);
+	if (!fat_traverse_complete (new_trav))
+		status = 0;
+	return status;
 }
 
 static void
diff --git a/libparted/fs/r/fat/traverse.c b/libparted/fs/r/fat/traverse.c
index 4ec6c21..a80a6f9 100644
--- a/libparted/fs/r/fat/traverse.c
+++ b/libparted/fs/r/fat/traverse.c
@@ -137,6 +137,7 @@ fat_traverse_begin (PedFileSystem* fs, FatCluster start_cluster,
 		= (fs_info->fat_type == FAT_TYPE_FAT16) && (start_cluster == 0);
 	trav_info->dirty = 0;
 	trav_info->eof = 0;
+	trav_info->failed = 0;
 	trav_info->current_entry = -1;
 
 	if (trav_info->is_legacy_root_dir) {
@@ -173,17 +174,18 @@ error:
 	return NULL;
 }
 
+/* returns 0 if a part of the directory couldn't be read or written */
 int
 fat_traverse_complete (FatTraverseInfo* trav_info)
 {
-	if (trav_info->dirty) {
-		if (!write_dir_buffer (trav_info))
-			return 0;
-	}
+	int		status = !trav_info->failed;
+
+	if (status && trav_info->dirty)
+		status = write_dir_buffer (trav_info);
 	free (trav_info->dir_entries);
 	free (trav_info->dir_name);
 	free (trav_info);
-	return 1;
+	return status;
 }
 
 FatTraverseInfo*
@@ -208,6 +210,9 @@ fat_traverse_directory (FatTraverseInfo *trav_info, FatDirEntry* parent)
 	return result;
 }
 
+/* returns NULL after the last entry, and on errors, which
+ * fat_traverse_complete() reports.
+ */
 FatDirEntry*
 fat_traverse_next_dir_entry (FatTraverseInfo *trav_info)
 {
@@ -219,7 +224,7 @@ fat_traverse_next_dir_entry (FatTraverseInfo *trav_info)
 			>= fat_traverse_entries_per_buffer (trav_info)) {
 		if (trav_info->dirty) {
 			if (!write_dir_buffer (trav_info))
-				return NULL;
+				goto error;
 		}
 
 		trav_info->current_entry = 0;
@@ -228,9 +233,14 @@ fat_traverse_next_dir_entry (FatTraverseInfo *trav_info)
 			return NULL;
 		}
 		if (!read_next_dir_buffer (trav_info))
-			return NULL;
+			goto error;
 	}
 	return trav_info->dir_entries + trav_info->current_entry;
+
+error:
+	trav_info->failed = 1;
+	trav_info->eof = 1;
+	return NULL;
 }
 
 FatCluster _GL_ATTRIBUTE_PURE
diff --git a/libparted/fs/r/fat/traverse.h b/libparted/fs/r/fat/traverse.h
index 02318ba..92a3c23 100644
--- a/libparted/fs/r/fat/traverse.h
+++ b/libparted/fs/r/fat/traverse.h
@@ -31,6 +31,7 @@ struct _FatTraverseInfo {
 	int			is_legacy_root_dir;
 	int			dirty;
 	int			eof;
+	int			failed;
 
 	FatDirEntry*		dir_entries;
 	int			current_entry;
-- 
2.43.0


From e7807497bb9e25e78fcb09bdead27259abad5f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:58 +0000
Subject: [PATCH 101/148] fix: fat: replacements of bad clusters are used by
 the copy only

---
 libparted/fs/r/fat/clstdup.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/libparted/fs/r/fat/clstdup.c b/libparted/fs/r/fat/clstdup.c
index 6a3054f..55acb40 100644
--- a/libparted/fs/r/fat/clstdup.c
+++ b/libparted/fs/r/fat/clstdup.c
@@ -82,7 +82,7 @@ read_marked_fragments (FatOpContext* ctx, FatFragment length)
 /* something bad happened, so read fragments one by one.  (The error may
    have occurred on an unused fragment: who cares) */
 	for (i = 0; i < length; i++) {
-		if (ctx->buffer_map [i]) {
+		if (ctx->buffer_map [i] != -1) {
 			if (!fat_read_fragment (ctx->old_fs,
 			      fs_info->buffer + i * fs_info->frag_size,
 			      ctx->buffer_offset + i))
@@ -255,6 +255,7 @@ slow_group_write (FatOpContext* ctx, int first, int last)
 	FatSpecific*		old_fs_info = FAT_SPECIFIC (ctx->old_fs);
 	FatSpecific*		new_fs_info = FAT_SPECIFIC (ctx->new_fs);
 	int			i;
+	FatCluster		cluster;
 
 	PED_ASSERT (first <= last);
 
@@ -265,12 +266,15 @@ slow_group_write (FatOpContext* ctx, int first, int last)
 		while (!fat_write_sync_fragment (ctx->new_fs,
 			      old_fs_info->buffer + i * old_fs_info->frag_size,
 			      ctx->buffer_map [i])) {
-			fat_table_set_bad (new_fs_info->fat,
-					   ctx->buffer_map [i]);
-			ctx->buffer_map [i] = fat_table_alloc_cluster
-						(new_fs_info->fat);
-			if (ctx->buffer_map [i] == 0)
+			cluster = fat_frag_to_cluster (ctx->new_fs,
+						       ctx->buffer_map [i]);
+			fat_table_set_bad (new_fs_info->fat, cluster);
+			cluster = fat_table_alloc_cluster (new_fs_info->fat);
+			if (!cluster)
 				return 0;
+			fat_table_set_eof (new_fs_info->fat, cluster);
+			ctx->buffer_map [i] = fat_cluster_to_frag (ctx->new_fs,
+								   cluster);
 		}
 	}
 	return 1;
-- 
2.43.0


From d09b19ce6bdab7bca98f58dada17310075481bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 102/148] fix: linux: compare the length the kernel knows with
 the one it is to be told

---
 libparted/arch/linux.c | 74 ++++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 39 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index ccbba86..3cdbe10 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -2575,6 +2575,26 @@ _blkpg_part_command (PedDevice* dev, struct blkpg_partition* part, int op)
         return ioctl (arch_specific->fd, BLKPG, &ioctl_arg) == 0;
 }
 
+/* Return the number of sectors that the kernel is to be told PART has.  */
+static PedSector
+_blkpg_partition_length (PedDisk* disk, const PedPartition *part)
+{
+        PedPartition *walk;
+
+        if (!(part->type & PED_PARTITION_EXTENDED))
+                return part->geom.length;
+        /* see fs/partitions/msdos.c:msdos_partition(): "leave room for LILO" */
+        if (disk->dev->sector_size != 512)
+                return 1;
+        /* if the second sector is claimed by a logical partition,
+           then there's just no room for lilo, so don't try to use it */
+        for (walk = part->part_list; walk; walk = walk->next) {
+                if (walk->geom.start == part->geom.start+1)
+                        return 1;
+        }
+        return 2;
+}
+
 static int
 _blkpg_add_partition (PedDisk* disk, const PedPartition *part)
 {
@@ -2597,25 +2617,8 @@ _blkpg_add_partition (PedDisk* disk, const PedPartition *part)
 
         memset (&linux_part, 0, sizeof (linux_part));
         linux_part.start = part->geom.start * disk->dev->sector_size;
-        /* see fs/partitions/msdos.c:msdos_partition(): "leave room for LILO" */
-        if (part->type & PED_PARTITION_EXTENDED) {
-                linux_part.length = 1;
-                if (disk->dev->sector_size == 512) {
-                        if (linux_part.length == 1)
-                                linux_part.length = 2;
-                        PedPartition *walk;
-                        /* if the second sector is claimed by a logical partition,
-                           then there's just no room for lilo, so don't try to use it */
-                        for (walk = part->part_list; walk; walk = walk->next) {
-                                if (walk->geom.start == part->geom.start+1)
-                                        linux_part.length = 1;
-                        }
-                }
-                linux_part.length *= disk->dev->sector_size;
-        }
-        else {
-                linux_part.length = part->geom.length * disk->dev->sector_size;
-        }
+        linux_part.length = _blkpg_partition_length (disk, part)
+                            * disk->dev->sector_size;
         linux_part.pno = part->num;
         strncpy (linux_part.devname, dev_name, BLKPG_DEVNAMELTH-1);
         linux_part.devname[BLKPG_DEVNAMELTH-1] = '\0';
@@ -2659,24 +2662,8 @@ static int _blkpg_resize_partition (PedDisk* disk, const PedPartition *part)
                 return 0;
         memset (&linux_part, 0, sizeof (linux_part));
         linux_part.start = part->geom.start * disk->dev->sector_size;
-        /* see fs/partitions/msdos.c:msdos_partition(): "leave room for LILO" */
-        if (part->type & PED_PARTITION_EXTENDED) {
-                if (disk->dev->sector_size == 512) {
-                        linux_part.length = 2;
-                        PedPartition *walk;
-                        /* if the second sector is claimed by a logical partition,
-                           then there's just no room for lilo, so don't try to use it */
-                        for (walk = part->part_list; walk; walk = walk->next) {
-                                if (walk->geom.start == part->geom.start+1)
-                                        linux_part.length = 1;
-                        }
-                } else {
-                        linux_part.length = 1;
-                }
-                linux_part.length *= disk->dev->sector_size;
-        }
-        else
-                linux_part.length = part->geom.length * disk->dev->sector_size;
+        linux_part.length = _blkpg_partition_length (disk, part)
+                            * disk->dev->sector_size;
         linux_part.pno = part->num;
         strncpy (linux_part.devname, dev_name, BLKPG_DEVNAMELTH-1);
         linux_part.devname[BLKPG_DEVNAMELTH-1] = '\0';
@@ -3056,6 +3043,12 @@ err:
         return rc;
 }
 
+static PedSector
+_dm_partition_length (PedDisk* disk, const PedPartition *part)
+{
+        return part->geom.length;
+}
+
 #endif
 
 /*
@@ -3082,6 +3075,7 @@ _disk_sync_part_table (PedDisk* disk)
         int (*add_partition)(PedDisk* disk, const PedPartition *part);
         int (*resize_partition)(PedDisk* disk, const PedPartition *part);
         int (*remove_partition)(PedDisk* disk, int partno);
+        PedSector (*partition_length)(PedDisk* disk, const PedPartition *part);
         bool (*get_partition_start_and_length)(PedPartition const *part,
                                                unsigned long long *start,
                                                unsigned long long *length);
@@ -3092,6 +3086,7 @@ _disk_sync_part_table (PedDisk* disk)
                 add_partition = _dm_add_partition;
                 remove_partition = _dm_remove_partition;
                 resize_partition = _dm_resize_partition;
+                partition_length = _dm_partition_length;
                 get_partition_start_and_length = _dm_get_partition_start_and_length;
         } else
 #endif
@@ -3103,6 +3098,7 @@ _disk_sync_part_table (PedDisk* disk)
 #else
                 resize_partition = NULL;
 #endif
+                partition_length = _blkpg_partition_length;
                 get_partition_start_and_length = _kernel_get_partition_start_and_length;
         }
 
@@ -3141,7 +3137,7 @@ _disk_sync_part_table (PedDisk* disk)
                         if (get_partition_start_and_length(part,
                                                            &start, &length)
                             && start == part->geom.start
-                            && (length == part->geom.length
+                            && (length == partition_length (disk, part)
                                 || (resize_partition && part->num < lpn2)))
                         {
                                 /* partition is unchanged, or will be resized so nothing to do */
@@ -3180,7 +3176,7 @@ _disk_sync_part_table (PedDisk* disk)
                                                    &start, &length)
                     && start == part->geom.start)
                 {
-                        if (length == part->geom.length) {
+                        if (length == partition_length (disk, part)) {
                                 ok[i - 1] = 1;
                                 /* partition is unchanged, so nothing to do */
                                 continue;
-- 
2.43.0


From 69b783454424d45c522a43c860902b9803967d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 103/148] fix: linux: shrink partitions in the kernel before
 others grow into the space they leave

---
 libparted/arch/linux.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 3cdbe10..7b176db 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -3165,6 +3165,17 @@ _disk_sync_part_table (PedDisk* disk)
         /* don't actually add partitions for loop */
         if (strcmp (disk->type->name, "loop") == 0)
                 lpn = 0;
+        /* shrink partitions before others can take the space they leave */
+        for (i = 1; resize_partition && i <= lpn; i++) {
+                PedPartition *part = ped_disk_get_partition (disk, i);
+                unsigned long long length;
+                unsigned long long start;
+                if (part
+                    && get_partition_start_and_length (part, &start, &length)
+                    && start == part->geom.start
+                    && length > partition_length (disk, part))
+                        ok[i - 1] = resize_partition (disk, part);
+        }
         for (i = 1; i <= lpn; i++) {
                 PedPartition *part = ped_disk_get_partition (disk, i);
                 if (!part)
@@ -3182,7 +3193,7 @@ _disk_sync_part_table (PedDisk* disk)
                                 continue;
                         }
                         if (resize_partition
-                            && start == part->geom.start)
+                            && length < partition_length (disk, part))
                         {
                                 /* try to resize */
                                 if (resize_partition (disk, part)) {
-- 
2.43.0


From 70143b784abd78a68b353eaebfac54ad1e90cfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 104/148] fix: linux: resize the last partition a label can
 hold in place too

---
 libparted/arch/linux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 7b176db..052274a 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -3138,7 +3138,7 @@ _disk_sync_part_table (PedDisk* disk)
                                                            &start, &length)
                             && start == part->geom.start
                             && (length == partition_length (disk, part)
-                                || (resize_partition && part->num < lpn2)))
+                                || (resize_partition && part->num <= lpn2)))
                         {
                                 /* partition is unchanged, or will be resized so nothing to do */
                                 ok[i - 1] = 1;
-- 
2.43.0


From 7216ea60cce0cd6954dce1cd8d7318b14a0fb88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 105/148] fix: linux: metadata does not claim the second sector
 of an extended partition

---
 libparted/arch/linux.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 052274a..0aae90c 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -2589,7 +2589,8 @@ _blkpg_partition_length (PedDisk* disk, const PedPartition *part)
         /* if the second sector is claimed by a logical partition,
            then there's just no room for lilo, so don't try to use it */
         for (walk = part->part_list; walk; walk = walk->next) {
-                if (walk->geom.start == part->geom.start+1)
+                if (ped_partition_is_active (walk)
+                    && walk->geom.start == part->geom.start+1)
                         return 1;
         }
         return 2;
-- 
2.43.0


From 3d9dd127a94f4824d630583ef505245216db5602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 106/148] fix: linux: believe the ioctls for the place of a
 partition when they succeed

---
 libparted/arch/linux.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 0aae90c..d470ad4 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -2765,7 +2765,7 @@ _kernel_get_partition_start_and_length(PedPartition const *part,
         if (!ok) {
                 struct hd_geometry geom;
                 int dev_fd = open (dev_name, O_RDONLY);
-                if (dev_fd != -1 && ioctl (dev_fd, HDIO_GETGEO, &geom)) {
+                if (dev_fd != -1 && !ioctl (dev_fd, HDIO_GETGEO, &geom)) {
                         *start = geom.start;
                         close (dev_fd);
                         ok = true;
@@ -2782,7 +2782,7 @@ _kernel_get_partition_start_and_length(PedPartition const *part,
         int fd;
         if (!ok) {
                 fd = open (dev_name, O_RDONLY);
-                if (fd != -1 && ioctl (fd, BLKGETSIZE64, length))
+                if (fd != -1 && !ioctl (fd, BLKGETSIZE64, length))
                         ok = true;
         } else {
                 fd = -1;
-- 
2.43.0


From 5d99cb26f7e154dc3f95cfc2dc3cbc3b65c90c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 107/148] fix: linux: look at all the partitions to tell
 whether a device is in use

---
 libparted/arch/linux.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index d470ad4..8a8b2c0 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1629,12 +1629,13 @@ static int
 linux_is_busy (PedDevice* dev)
 {
         int     i;
+        int     n = _device_get_partition_range (dev);
         char*   part_name;
 
         if (_partition_is_mounted_by_path (dev->path))
                 return 1;
 
-        for (i = 0; i < 32; i++) {
+        for (i = 1; i <= n; i++) {
                 int status;
 
                 part_name = _device_get_part_path (dev, i);
-- 
2.43.0


From ff670746019926e4a3ec8f164e9d942fe3070b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 108/148] fix: linux: survive a failing device-mapper

---
 libparted/arch/linux.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 8a8b2c0..21ac64b 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -2418,22 +2418,21 @@ dm_canonical_path (PedDevice const *dev)
 {
         LinuxSpecific const *arch_specific = LINUX_SPECIFIC (dev);
 
+        char *dev_name = NULL;
+
         /* Get map name from devicemapper */
         struct dm_task *task = dm_task_create (DM_DEVICE_INFO);
         if (!task)
-                goto err;
+                return NULL;
         if (!dm_task_set_major_minor (task, arch_specific->major,
                                       arch_specific->minor, 0))
                 goto err;
         if (!dm_task_run(task))
                 goto err;
-        char *dev_name = zasprintf ("/dev/mapper/%s", dm_task_get_name (task));
-        if (dev_name == NULL)
-                goto err;
+        dev_name = zasprintf ("/dev/mapper/%s", dm_task_get_name (task));
+err:
         dm_task_destroy (task);
         return dev_name;
-err:
-        return NULL;
 }
 #endif
 
@@ -2831,6 +2830,10 @@ _dm_remove_partition(PedDisk* disk, int partno)
         uint32_t        cookie = 0;
         char            *part_name = _device_get_part_path (disk->dev, partno);
 
+        if (!part_name) {
+                errno = ENOMEM;
+                return 0;
+        }
         int fd = open (part_name, O_RDONLY | O_EXCL);
         if (fd == -1) {
                 if (errno == ENOENT)
@@ -2843,10 +2846,10 @@ _dm_remove_partition(PedDisk* disk, int partno)
                 goto err;
         dm_task_set_name (task, part_name);
         dm_task_retry_remove(task);
-        if (!dm_task_set_cookie (task, &cookie, 0))
-                goto err;
-        rc = _dm_task_run_wait (task, cookie);
-        dm_task_update_nodes();
+        if (dm_task_set_cookie (task, &cookie, 0)) {
+                rc = _dm_task_run_wait (task, cookie);
+                dm_task_update_nodes();
+        }
         dm_task_destroy(task);
 err:
         free (part_name);
@@ -2864,7 +2867,8 @@ _dm_get_partition_start_and_length(PedPartition const *part,
         if (!(task = dm_task_create(DM_DEVICE_TABLE)))
                 return 0;
         char *path = _device_get_part_path (part->disk->dev, part->num);
-        PED_ASSERT(path);
+        if (!path)
+                goto err;
         /* libdevmapper likes to complain on stderr instead of quietly
            returning ENOENT or ENXIO, so try to stat first */
         struct stat st;
-- 
2.43.0


From 6e1c9ffe0804ad15a85e630ab395ddc896ad9239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 109/148] fix: linux: report partitions in use that are beyond
 what the new label can hold

---
 libparted/arch/linux.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 21ac64b..f8513a3 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -3167,6 +3167,7 @@ _disk_sync_part_table (PedDisk* disk)
                 if (!ok[i - 1] && errnums[i - 1] == ENXIO)
                         ok[i - 1] = 1; /* it already doesn't exist */
         }
+        int max_lpn = lpn;
         lpn = lpn2;
         /* don't actually add partitions for loop */
         if (strcmp (disk->type->name, "loop") == 0)
@@ -3217,11 +3218,15 @@ _disk_sync_part_table (PedDisk* disk)
 
         char *bad_part_list = NULL;
         /* now warn about any errors */
-        for (i = 1; i <= lpn; i++) {
+        for (i = 1; i <= max_lpn; i++) {
                 if (ok[i - 1] || errnums[i - 1] == ENXIO)
                         continue;
+                /* beyond what the label can hold, only a partition that is
+                   still there because it is in use matters */
+                if (i > lpn && errnums[i - 1] != EBUSY)
+                        continue;
                 if (bad_part_list == NULL) {
-                        bad_part_list = malloc (lpn * 5);
+                        bad_part_list = malloc (max_lpn * 12 + 1);
                         if (!bad_part_list)
                                 goto cleanup;
                         bad_part_list[0] = 0;
-- 
2.43.0


From 0175b9d80635d3e58b718ca240e8be1c87334983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 110/148] fix: linux: report partitions the kernel refuses to
 add with ENXIO

---
 libparted/arch/linux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index f8513a3..db14719 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -3219,7 +3219,7 @@ _disk_sync_part_table (PedDisk* disk)
         char *bad_part_list = NULL;
         /* now warn about any errors */
         for (i = 1; i <= max_lpn; i++) {
-                if (ok[i - 1] || errnums[i - 1] == ENXIO)
+                if (ok[i - 1])
                         continue;
                 /* beyond what the label can hold, only a partition that is
                    still there because it is in use matters */
-- 
2.43.0


From 2a1fbf50967ac795101829ff5d911b970570f996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 111/148] fix: linux: count the good sectors rightly when
 sectors are large, reads are short or the device ends

---
 libparted/arch/linux.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index db14719..7c836ca 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -2126,8 +2126,9 @@ static PedSector
 linux_check (PedDevice* dev, void* buffer, PedSector start, PedSector count)
 {
         LinuxSpecific*  arch_specific = LINUX_SPECIFIC (dev);
-        PedSector       done = 0;
-        int             status;
+        size_t          length = count * dev->sector_size;
+        size_t          done = 0;
+        ssize_t         status;
         void*           diobuf;
 
         PED_ASSERT(dev != NULL);
@@ -2135,21 +2136,18 @@ linux_check (PedDevice* dev, void* buffer, PedSector start, PedSector count)
         if (!_device_seek (dev, start))
                 return 0;
 
-        if (posix_memalign(&diobuf, PED_SECTOR_SIZE_DEFAULT,
-                           count * PED_SECTOR_SIZE_DEFAULT) != 0)
+        if (posix_memalign(&diobuf, dev->sector_size, length) != 0)
                 return 0;
 
-        for (done = 0; done < count; done += status / dev->sector_size) {
-                status = read (arch_specific->fd, diobuf,
-                               (size_t) ((count-done) * dev->sector_size));
-                if (status > 0)
-                        memcpy(buffer, diobuf, status);
-                if (status < 0)
+        for (done = 0; done < length; done += status) {
+                status = read (arch_specific->fd, diobuf, length - done);
+                if (status <= 0)
                         break;
+                memcpy((char *) buffer + done, diobuf, status);
         }
         free(diobuf);
 
-        return done;
+        return done / dev->sector_size;
 }
 
 static int
-- 
2.43.0


From fa6e73c6c1de9b458886a00431587ea412c92b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 112/148] fix: linux: close the file even when it cannot be
 flushed, and close it once

---
 libparted/arch/linux.c | 43 +++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 7c836ca..29083d2 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1651,6 +1651,28 @@ linux_is_busy (PedDevice* dev)
         return 0;
 }
 
+/* Write what is cached for the open file FD, called NAME, and close it.  */
+static void
+_fsync_and_close (int fd, const char* name)
+{
+        while (fsync (fd) < 0) {
+                if (ped_exception_throw (
+                        PED_EXCEPTION_WARNING,
+                        PED_EXCEPTION_RETRY + PED_EXCEPTION_IGNORE,
+                        _("Error fsyncing/closing %s: %s"),
+                        name, strerror (errno))
+                                != PED_EXCEPTION_RETRY)
+                        break;
+        }
+        /* FD is gone even when close fails, so this can't be retried */
+        if (close (fd) < 0)
+                ped_exception_throw (
+                        PED_EXCEPTION_WARNING,
+                        PED_EXCEPTION_IGNORE,
+                        _("Error fsyncing/closing %s: %s"),
+                        name, strerror (errno));
+}
+
 /* we need to flush the master device, and all the partition devices,
  * because there is no coherency between the caches.
  * We should only flush unmounted partition devices, because:
@@ -1682,16 +1704,7 @@ _flush_cache (PedDevice* dev)
                         fd = open (name, WR_MODE, 0);
                         if (fd > -1) {
                                 ioctl (fd, BLKFLSBUF);
-retry:
-                                if (fsync (fd) < 0 || close (fd) < 0)
-					if (ped_exception_throw (
-						PED_EXCEPTION_WARNING,
-						PED_EXCEPTION_RETRY +
-							PED_EXCEPTION_IGNORE,
-						_("Error fsyncing/closing %s: %s"),
-						name, strerror (errno))
-							== PED_EXCEPTION_RETRY)
-						goto retry;
+                                _fsync_and_close (fd, name);
                         }
                 }
                 free (name);
@@ -1768,15 +1781,7 @@ linux_close (PedDevice* dev)
 
         if (dev->dirty)
                 _flush_cache (dev);
-retry:
-        if (fsync (arch_specific->fd) < 0 || close (arch_specific->fd) < 0)
-		if (ped_exception_throw (
-			PED_EXCEPTION_WARNING,
-			PED_EXCEPTION_RETRY + PED_EXCEPTION_IGNORE,
-			_("Error fsyncing/closing %s: %s"),
-			dev->path, strerror (errno))
-				== PED_EXCEPTION_RETRY)
-			goto retry;
+        _fsync_and_close (arch_specific->fd, dev->path);
         return 1;
 }
 
-- 
2.43.0


From a01f4e0b19b74fc0479ad1524cb7eadee46510b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 113/148] fix: linux: free all of a device that cannot be used

---
 libparted/arch/linux.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 29083d2..d4e570e 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1456,6 +1456,7 @@ linux_new (const char* path)
         arch_specific->topology = NULL;
 #endif
 
+        dev->model = NULL;
         dev->open_count = 0;
         dev->read_only = 0;
         dev->external_mode = 0;
@@ -1599,6 +1600,12 @@ linux_new (const char* path)
         return dev;
 
 error_free_arch_specific:
+#if USE_BLKID
+        if (arch_specific->probe)
+                blkid_free_probe (arch_specific->probe);
+#endif
+        free (arch_specific->dmtype);
+        free (dev->model);
         free (dev->arch_specific);
 error_free_path:
         free (dev->path);
-- 
2.43.0


From 01099fefb0873af12b5a6499c74de83356799dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 114/148] fix: linux: scale the result of BLKGETSIZE

---
 libparted/arch/linux.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index d4e570e..f9d28d9 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -858,7 +858,8 @@ _device_get_length (PedDevice* dev)
                 return 0;
         }
 
-        return size;
+        /* SIZE is in units of 512 bytes */
+        return size / (dev->sector_size / PED_SECTOR_SIZE_DEFAULT);
 }
 
 static int
-- 
2.43.0


From 953394002155a6f74c3653b4b1b54d853d5181e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 115/148] fix: linux: give SCSI devices without an identity a
 model

---
 libparted/arch/linux.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index f9d28d9..3692e63 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1174,6 +1174,7 @@ init_scsi (PedDevice* dev)
                         dev->path, strerror (errno))
                                 != PED_EXCEPTION_IGNORE)
                         goto error_close_dev;
+                dev->model = strdup ("Generic SCSI");
                 if (!_device_probe_geometry (dev))
                         goto error_close_dev;
                 _device_close (dev);
-- 
2.43.0


From e08a7e97036ca93ca6fce52a02f084cd4f82b7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 116/148] fix: linux: use the length of a device whose geometry
 cannot be determined

---
 libparted/arch/linux.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 3692e63..a651bc5 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1331,11 +1331,15 @@ init_generic (PedDevice* dev, const char* model_name)
         if (!_device_open_ro (dev))
                 goto error;
 
+        dev->sector_size = PED_SECTOR_SIZE_DEFAULT;
+        dev->phys_sector_size = PED_SECTOR_SIZE_DEFAULT;
+
         ped_exception_fetch_all ();
         if (_device_probe_geometry (dev)) {
                 ped_exception_leave_all ();
         } else {
-		if (!_device_get_length (dev)) {
+		dev->length = _device_get_length (dev);
+		if (!dev->length) {
 			ped_exception_catch ();
 			ped_exception_leave_all ();
 			goto error_close_dev;
@@ -1367,12 +1371,10 @@ init_generic (PedDevice* dev, const char* model_name)
                 }
 
                 /* what should we stick in here? */
-                dev->length = dev_stat.st_size / PED_SECTOR_SIZE_DEFAULT;
                 dev->bios_geom.cylinders = dev->length / 4 / 32;
                 dev->bios_geom.heads = 4;
                 dev->bios_geom.sectors = 32;
-                dev->sector_size = PED_SECTOR_SIZE_DEFAULT;
-                dev->phys_sector_size = PED_SECTOR_SIZE_DEFAULT;
+                dev->hw_geom = dev->bios_geom;
         }
 
         dev->model = strdup (model_name);
-- 
2.43.0


From 6847d6836a314981b380f36fec95ebb0cb4ff646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 117/148] fix: fat: tell FAT12 from FAT16 by the size of the
 file system, not of the region

---
 libparted/fs/fat/bootsector.c | 22 +++++++++++++++++-----
 libparted/fs/fat/bootsector.h |  3 +--
 libparted/fs/fat/fat.h        |  2 +-
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/libparted/fs/fat/bootsector.c b/libparted/fs/fat/bootsector.c
index 15db7ab..3bc4ac0 100644
--- a/libparted/fs/fat/bootsector.c
+++ b/libparted/fs/fat/bootsector.c
@@ -87,11 +87,12 @@ fat_boot_sector_read (FatBootSector** bsp, const PedGeometry *geom)
     Don't trust the FAT12, FAT16 or FAT32 label string.
  */
 FatType _GL_ATTRIBUTE_PURE
-fat_boot_sector_probe_type (const FatBootSector* bs, const PedGeometry* geom)
+fat_boot_sector_probe_type (const FatBootSector* bs)
 {
 	PedSector	logical_sector_size;
+	PedSector	sector_count;
 	PedSector	first_cluster_sector;
-	FatCluster	cluster_count;
+	PedSector	cluster_count;
 
 	if (!PED_LE16_TO_CPU (bs->dir_entries))
 		return FAT_TYPE_FAT32;
@@ -100,10 +101,21 @@ fat_boot_sector_probe_type (const FatBootSector* bs, const PedGeometry* geom)
 
 	first_cluster_sector
 		= PED_LE16_TO_CPU (bs->reserved) * logical_sector_size
-		  + 2 * PED_LE16_TO_CPU (bs->fat_length) * logical_sector_size
+		  + bs->fats * PED_LE16_TO_CPU (bs->fat_length)
+			* logical_sector_size
 		  + PED_LE16_TO_CPU (bs->dir_entries)
 			/ (512 / sizeof (FatDirEntry));
-	cluster_count = (geom->length - first_cluster_sector)
+
+	/* The file system need not fill the region it is in, so it is its own
+	 * size that counts.
+	 */
+	if (bs->sectors)
+		sector_count = PED_LE16_TO_CPU (bs->sectors);
+	else
+		sector_count = PED_LE32_TO_CPU (bs->sector_count);
+	sector_count *= logical_sector_size;
+
+	cluster_count = (sector_count - first_cluster_sector)
 			/ bs->cluster_size / logical_sector_size;
 	if (cluster_count > MAX_FAT12_CLUSTERS)
 		return FAT_TYPE_FAT16;
@@ -211,7 +223,7 @@ fat_boot_sector_analyse (FatBootSector* bs, PedFileSystem* fs)
 		return 0;
 	}
 
-	fs_info->fat_type = fat_boot_sector_probe_type (bs, fs->geom);
+	fs_info->fat_type = fat_boot_sector_probe_type (bs);
 	if (fs_info->fat_type == FAT_TYPE_FAT12) {
 		ped_exception_throw (
 			PED_EXCEPTION_NO_FEATURE,
diff --git a/libparted/fs/fat/bootsector.h b/libparted/fs/fat/bootsector.h
index 328ba2f..dfae8f8 100644
--- a/libparted/fs/fat/bootsector.h
+++ b/libparted/fs/fat/bootsector.h
@@ -118,8 +118,7 @@ struct __attribute__ ((packed)) _FatInfoSector {
 };
 
 int fat_boot_sector_read (FatBootSector** bs, const PedGeometry* geom);
-FatType fat_boot_sector_probe_type (const FatBootSector* bs,
-				    const PedGeometry* geom);
+FatType fat_boot_sector_probe_type (const FatBootSector* bs) _GL_ATTRIBUTE_PURE;
 int fat_boot_sector_analyse (FatBootSector* bs, PedFileSystem* fs);
 
 
diff --git a/libparted/fs/fat/fat.h b/libparted/fs/fat/fat.h
index f5302d9..c9bd1b1 100644
--- a/libparted/fs/fat/fat.h
+++ b/libparted/fs/fat/fat.h
@@ -143,7 +143,7 @@ struct _FatSpecific {
 #define DIRECTORY_ATTR		0x10
 #define ARCH_ATTR		0x20
 
-#define MAX_FAT12_CLUSTERS	4086
+#define MAX_FAT12_CLUSTERS	4084
 #define MAX_FAT16_CLUSTERS	65526
 #define MAX_FAT32_CLUSTERS	2000000
 
-- 
2.43.0


From fcb37db9ee83ab3cec796093401109c9a977785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 118/148] fix: fat: count device sectors when they are larger
 than 512 bytes

---
 libparted/fs/fat/fat.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libparted/fs/fat/fat.c b/libparted/fs/fat/fat.c
index c04f178..692a073 100644
--- a/libparted/fs/fat/fat.c
+++ b/libparted/fs/fat/fat.c
@@ -81,8 +81,10 @@ fat_probe (PedGeometry* geom, FatType* fat_type)
 		goto error_free_fs;
 
 	*fat_type = fs_info->fat_type;
+	/* sector_count is in units of 512 bytes */
 	result = ped_geometry_new (geom->dev, geom->start,
-				   fs_info->sector_count);
+				   fs_info->sector_count
+				   / (geom->dev->sector_size / 512));
 
 	fat_free (fs);
 	return result;
-- 
2.43.0


From 96d0588695028ae201b3d5de5041a7332a197cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 119/148] fix: linux-swap: sectors can be larger than a page

---
 libparted/fs/linux_swap/linux_swap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libparted/fs/linux_swap/linux_swap.c b/libparted/fs/linux_swap/linux_swap.c
index 60100b0..58a6a56 100644
--- a/libparted/fs/linux_swap/linux_swap.c
+++ b/libparted/fs/linux_swap/linux_swap.c
@@ -132,7 +132,9 @@ swap_init (PedFileSystem* fs)
 {
 	SwapSpecific*	fs_info = SWAP_SPECIFIC (fs);
 
-	fs_info->page_sectors = getpagesize () / fs->geom->dev->sector_size;
+	/* a sector can be larger than a page */
+	fs_info->page_sectors = PED_MAX (1, getpagesize ()
+					 / fs->geom->dev->sector_size);
 	fs_info->page_count = fs->geom->length / fs_info->page_sectors;
 	fs_info->version = 1;
 	fs_info->max_bad_pages = (getpagesize()
-- 
2.43.0


From 18cf175bfbcdb30972f7abe47f0dd00af1d455e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 120/148] fix: linux-swap: count the pages of large regions in
 64 bits

---
 libparted/fs/linux_swap/linux_swap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/fs/linux_swap/linux_swap.c b/libparted/fs/linux_swap/linux_swap.c
index 58a6a56..a0b0ed4 100644
--- a/libparted/fs/linux_swap/linux_swap.c
+++ b/libparted/fs/linux_swap/linux_swap.c
@@ -65,7 +65,7 @@ typedef struct {
 	int		buffer_size;
 
 	PedSector	page_sectors;
-	unsigned int	page_count;
+	PedSector	page_count;
 	unsigned int	version;
 	unsigned int	max_bad_pages;
 } SwapSpecific;
-- 
2.43.0


From 580d5bb39297d8069e3f5afa68d7107cd9932747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 121/148] fix: linux-swap: the last page belongs to the swap
 area

---
 libparted/fs/linux_swap/linux_swap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libparted/fs/linux_swap/linux_swap.c b/libparted/fs/linux_swap/linux_swap.c
index a0b0ed4..246177e 100644
--- a/libparted/fs/linux_swap/linux_swap.c
+++ b/libparted/fs/linux_swap/linux_swap.c
@@ -261,7 +261,9 @@ _swap_v1_open (PedGeometry* geom)
 	sig = ((char*) fs_info->header) + getpagesize() - 10;
 	if (strncmp (sig, "SWAPSPACE2", 10) == 0) {
 		fs_info->version = 1;
-		fs_info->page_count = fs_info->header->new.last_page;
+		/* last_page is the number of the last page, from 0 on */
+		fs_info->page_count
+			= (PedSector) fs_info->header->new.last_page + 1;
 	} else {
 		char	_sig [11];
 
-- 
2.43.0


From d99630afdf3c284f93dcd39ea3f53a068a044dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 122/148] fix: hfs: look for the alternate MDB in the sector
 that was read

---
 libparted/fs/hfs/probe.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libparted/fs/hfs/probe.c b/libparted/fs/hfs/probe.c
index d02ca28..c6ddf6d 100644
--- a/libparted/fs/hfs/probe.c
+++ b/libparted/fs/hfs/probe.c
@@ -90,6 +90,8 @@ hfs_and_wrapper_probe (PedGeometry* geom)
 	    || !(geom_ret = ped_geometry_new (geom->dev, geom->start, search + 2)))
 		return NULL;
 
+	/* The alternate MDB is at the beginning of the sector.  */
+	mdb = (HfsMasterDirectoryBlock *) buf;
 	for (; search < max; search++) {
 		if (!ped_geometry_set (geom_ret, geom_ret->start, search + 2)
 		    || !ped_geometry_read (geom_ret, buf, search, 1))
-- 
2.43.0


From 53822a1e15b3d57d36470fab86f87a658a7fb322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 123/148] fix: reiserfs: find the superblock on devices with
 large sectors

---
 libparted/fs/reiserfs/reiserfs.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libparted/fs/reiserfs/reiserfs.c b/libparted/fs/reiserfs/reiserfs.c
index 0638f3e..fd95fb0 100644
--- a/libparted/fs/reiserfs/reiserfs.c
+++ b/libparted/fs/reiserfs/reiserfs.c
@@ -36,7 +36,8 @@
 
 #include "reiserfs.h"
 
-static PedSector reiserfs_super_offset[] = { 128, 16, -1 };
+/* in bytes */
+static PedSector reiserfs_super_offset[] = { 64 * 1024, 8 * 1024, -1 };
 static PedFileSystemType* reiserfs_type;
 
 static PedGeometry *reiserfs_probe(PedGeometry *geom)
@@ -44,12 +45,17 @@ static PedGeometry *reiserfs_probe(PedGeometry *geom)
 	int i;
 
 	PED_ASSERT(geom != NULL);
-	reiserfs_super_block_t *sb = alloca (geom->dev->sector_size);
+	char *buf = alloca (geom->dev->sector_size);
 
 	for (i = 0; reiserfs_super_offset[i] != -1; i++) {
-		if (reiserfs_super_offset[i] >= geom->length)
+		PedSector offset = reiserfs_super_offset[i]
+				   / geom->dev->sector_size;
+		reiserfs_super_block_t *sb = (reiserfs_super_block_t *)
+			(buf + reiserfs_super_offset[i] % geom->dev->sector_size);
+
+		if (offset >= geom->length)
 			continue;
-		if (!ped_geometry_read (geom, sb, reiserfs_super_offset[i], 1))
+		if (!ped_geometry_read (geom, buf, offset, 1))
 			continue;
 
 		if (strncmp(REISERFS_SIGNATURE, sb->s_magic,
-- 
2.43.0


From ff78230e948cc7b27ed6eb65a6f6c100ec096a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 124/148] fix: f2fs: find the superblock on devices with large
 sectors

---
 libparted/fs/f2fs/f2fs.c | 9 +++++++--
 libparted/fs/f2fs/f2fs.h | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/libparted/fs/f2fs/f2fs.c b/libparted/fs/f2fs/f2fs.c
index 68ed092..b72c783 100644
--- a/libparted/fs/f2fs/f2fs.c
+++ b/libparted/fs/f2fs/f2fs.c
@@ -26,9 +26,14 @@
 static PedGeometry*
 f2fs_probe (PedGeometry* geom)
 {
-        struct f2fs_super_block *sb = alloca(geom->dev->sector_size);
+        const int sectors = (F2FS_SB_OFFSET + sizeof (struct f2fs_super_block)
+                             + geom->dev->sector_size - 1)
+                            / geom->dev->sector_size;
+        char *buf = alloca (sectors * geom->dev->sector_size);
+        struct f2fs_super_block *sb
+                = (struct f2fs_super_block *) (buf + F2FS_SB_OFFSET);
 
-        if (!ped_geometry_read (geom, sb, F2FS_SB_OFFSET, 1))
+        if (!ped_geometry_read (geom, buf, 0, sectors))
                 return NULL;
 
         if (PED_LE32_TO_CPU(sb->magic) == F2FS_MAGIC)
diff --git a/libparted/fs/f2fs/f2fs.h b/libparted/fs/f2fs/f2fs.h
index 9341337..9572cde 100644
--- a/libparted/fs/f2fs/f2fs.h
+++ b/libparted/fs/f2fs/f2fs.h
@@ -20,7 +20,7 @@
 
 #define F2FS_MAGIC		0xF2F52010
 #define F2FS_MAX_VOLUME_NAME	512
-#define F2FS_SB_OFFSET		0x02
+#define F2FS_SB_OFFSET		1024	/* bytes */
 
 struct f2fs_super_block {
     uint32_t magic;			/* Magic Number */
-- 
2.43.0


From 5f965c5a60d13c3a909fdbd473eb88c34d59cad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 125/148] fix: ufs: the size is in fragments, not blocks

---
 libparted/fs/ufs/ufs.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libparted/fs/ufs/ufs.c b/libparted/fs/ufs/ufs.c
index d2bf421..4f913a6 100644
--- a/libparted/fs/ufs/ufs.c
+++ b/libparted/fs/ufs/ufs.c
@@ -63,7 +63,7 @@ struct __attribute__ ((packed)) ufs_super_block {
 	uint32_t	fs_cgoffset;	/* cylinder group offset in cylinder */
 	uint32_t	fs_cgmask;	/* used to calc mod fs_ntrak */
 	uint32_t	fs_time;	/* last time written -- time_t */
-	uint32_t	fs_size;	/* number of blocks in fs */
+	uint32_t	fs_size;	/* number of frag blocks in fs */
 	uint32_t	fs_dsize;	/* number of data blocks in fs */
 	uint32_t	fs_ncg;		/* number of cylinder groups */
 	uint32_t	fs_bsize;	/* size of basic blocks in fs */
@@ -188,13 +188,13 @@ ufs_probe_sun (PedGeometry* geom)
 	sb = (struct ufs_super_block *)buf;
 
 	if (PED_BE32_TO_CPU(sb->fs_magic) == UFS_MAGIC) {
-		PedSector block_size = PED_BE32_TO_CPU(sb->fs_bsize) / geom->dev->sector_size;
+		PedSector block_size = PED_BE32_TO_CPU(sb->fs_fsize) / geom->dev->sector_size;
 		PedSector block_count = PED_BE32_TO_CPU(sb->fs_size);
 		return ped_geometry_new (geom->dev, geom->start,
 					 block_size * block_count);
 	}
 	if (PED_LE32_TO_CPU(sb->fs_magic) == UFS_MAGIC) {
-		PedSector block_size = PED_LE32_TO_CPU(sb->fs_bsize) / geom->dev->sector_size;
+		PedSector block_size = PED_LE32_TO_CPU(sb->fs_fsize) / geom->dev->sector_size;
 		PedSector block_count = PED_LE32_TO_CPU(sb->fs_size);
 		return ped_geometry_new (geom->dev, geom->start,
 					 block_size * block_count);
@@ -225,7 +225,7 @@ ufs_probe_hp (PedGeometry* geom)
 		case UFS_MAGIC_LFN:
 		case UFS_MAGIC_FEA:
 		case UFS_MAGIC_4GB:
-			block_size = PED_BE32_TO_CPU(sb->fs_bsize) / geom->dev->sector_size;
+			block_size = PED_BE32_TO_CPU(sb->fs_fsize) / geom->dev->sector_size;
 			block_count = PED_BE32_TO_CPU(sb->fs_size);
 			return ped_geometry_new (geom->dev, geom->start,
 						 block_size * block_count);
@@ -236,7 +236,7 @@ ufs_probe_hp (PedGeometry* geom)
 		case UFS_MAGIC_LFN:
 		case UFS_MAGIC_FEA:
 		case UFS_MAGIC_4GB:
-			block_size = PED_LE32_TO_CPU(sb->fs_bsize) / geom->dev->sector_size;
+			block_size = PED_LE32_TO_CPU(sb->fs_fsize) / geom->dev->sector_size;
 			block_count = PED_LE32_TO_CPU(sb->fs_size);
 			return ped_geometry_new (geom->dev, geom->start,
 						 block_size * block_count);
-- 
2.43.0


From 67af47f6fe7d33689e5e005869e24570e2aae0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 126/148] fix: filesys: compare the fit of file systems on
 large devices in 64 bits

---
 libparted/filesys.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libparted/filesys.c b/libparted/filesys.c
index f67a4e8..43f5eba 100644
--- a/libparted/filesys.c
+++ b/libparted/filesys.c
@@ -206,7 +206,7 @@ ped_file_system_probe_specific (
 	return result;
 }
 
-static int
+static PedSector
 _geometry_error (const PedGeometry* a, const PedGeometry* b)
 {
 	PedSector	start_delta = a->start - b->start;
@@ -217,7 +217,7 @@ _geometry_error (const PedGeometry* a, const PedGeometry* b)
 
 static PedFileSystemType*
 _best_match (const PedGeometry* geom, PedFileSystemType* detected [],
-	     const int detected_error [], int detected_count)
+	     const PedSector detected_error [], int detected_count)
 {
 	int		best_match = 0;
 	int		i;
@@ -237,7 +237,7 @@ _best_match (const PedGeometry* geom, PedFileSystemType* detected [],
 		if (i == best_match)
 			continue;
 
-		if (abs (detected_error [best_match] - detected_error [i])
+		if (llabs (detected_error [best_match] - detected_error [i])
 				< min_error)
 			return NULL;
 	}
@@ -258,7 +258,7 @@ PedFileSystemType*
 ped_file_system_probe (PedGeometry* geom)
 {
 	PedFileSystemType*	detected[32];
-	int			detected_error[32];
+	PedSector		detected_error[32];
 	int			detected_count = 0;
 	PedFileSystemType*	walk = NULL;
 
-- 
2.43.0


From 2ac4ec523bd19da4ba9b05958fcd70004c9e2256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 127/148] fix: fat: size in 64 bits

---
 libparted/fs/fat/bootsector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libparted/fs/fat/bootsector.c b/libparted/fs/fat/bootsector.c
index 3bc4ac0..3d6681b 100644
--- a/libparted/fs/fat/bootsector.c
+++ b/libparted/fs/fat/bootsector.c
@@ -190,10 +190,10 @@ fat_boot_sector_analyse (FatBootSector* bs, PedFileSystem* fs)
 	}
 
 	if (bs->sectors)
-		fs_info->sector_count = PED_LE16_TO_CPU (bs->sectors)
+		fs_info->sector_count = (PedSector) PED_LE16_TO_CPU (bs->sectors)
 						* fs_info->logical_sector_size;
 	else
-		fs_info->sector_count = PED_LE32_TO_CPU (bs->sector_count)
+		fs_info->sector_count = (PedSector) PED_LE32_TO_CPU (bs->sector_count)
 						* fs_info->logical_sector_size;
 
 	fs_info->fat_table_count = bs->fats;
-- 
2.43.0


From 1d47bbe1bec478a9ff38da076f57627103e39ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 128/148] fix: ext2: find the file system from a copy of its
 superblock, and only once

---
 libparted/fs/ext2/ext2_fs.h   |  1 +
 libparted/fs/ext2/interface.c | 39 +++++++++++++++++++++++------------
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/libparted/fs/ext2/ext2_fs.h b/libparted/fs/ext2/ext2_fs.h
index 1eca7ab..25a2cd9 100644
--- a/libparted/fs/ext2/ext2_fs.h
+++ b/libparted/fs/ext2/ext2_fs.h
@@ -30,6 +30,7 @@
 
 #define EXT2_SUPER_MAGIC_CONST	0xEF53
 #define EXT2_MIN_BLOCK_SIZE	1024
+#define EXT2_MAX_LOG_BLOCK_SIZE	6
 #define EXT2_NDIR_BLOCKS	12
 #define EXT2_IND_BLOCK		EXT2_NDIR_BLOCKS
 #define EXT2_DIND_BLOCK		(EXT2_IND_BLOCK + 1)
diff --git a/libparted/fs/ext2/interface.c b/libparted/fs/ext2/interface.c
index 5f64ab3..b090d2a 100644
--- a/libparted/fs/ext2/interface.c
+++ b/libparted/fs/ext2/interface.c
@@ -32,7 +32,7 @@ static PedFileSystemType _ext3_type;
 struct ext2_dev_handle* ext2_make_dev_handle_from_parted_geometry(PedGeometry* geom);
 
 static PedGeometry*
-_ext2_generic_probe (PedGeometry* geom, int expect_ext_ver)
+_ext2_generic_probe (PedGeometry* geom, int expect_ext_ver, int backup_ok)
 {
 	struct ext2_super_block *sb;
 	const int sectors = (4096 + geom->dev->sector_size - 1) /
@@ -43,10 +43,15 @@ _ext2_generic_probe (PedGeometry* geom, int expect_ext_ver)
 	sb = (struct ext2_super_block *)(buf+1024);
 
 	if (EXT2_SUPER_MAGIC(*sb) == EXT2_SUPER_MAGIC_CONST) {
-		PedSector block_size = (EXT2_MIN_BLOCK_SIZE << (EXT2_SUPER_LOG_BLOCK_SIZE(*sb))) / geom->dev->sector_size;
+		if (EXT2_SUPER_LOG_BLOCK_SIZE(*sb) > EXT2_MAX_LOG_BLOCK_SIZE)
+			return NULL;
+
+		PedSector block_bytes = (PedSector) EXT2_MIN_BLOCK_SIZE
+					<< EXT2_SUPER_LOG_BLOCK_SIZE(*sb);
 		PedSector block_count = EXT2_SUPER_BLOCKS_COUNT(*sb);
 		PedSector group_blocks = EXT2_SUPER_BLOCKS_PER_GROUP(*sb);
 		PedSector group_nr = EXT2_SUPER_BLOCK_GROUP_NR(*sb);
+		PedSector length = block_count * block_bytes / geom->dev->sector_size;
 		PedSector first_data_block = EXT2_SUPER_FIRST_DATA_BLOCK(*sb);
 		int version = EXT2_SUPER_REV_LEVEL(*sb);
 		int is_ext3 = 0;
@@ -75,22 +80,30 @@ _ext2_generic_probe (PedGeometry* geom, int expect_ext_ver)
 			return NULL;
 
 		if (version > 0 && group_nr > 0) {
+			/* This is the copy of the superblock at the start of
+			 * group group_nr; look for the superblock itself.
+			 */
 			PedSector start;
 			PedGeometry probe_geom;
 
-			start = geom->start
-					- group_blocks * group_nr
-					- first_data_block;
+			if (!backup_ok)
+				return NULL;
 
-			if (start < 0)
+			start = geom->start * geom->dev->sector_size + 1024
+				- (first_data_block + group_blocks * group_nr)
+				  * block_bytes;
+
+			if (start < 0 || start % geom->dev->sector_size)
+				return NULL;
+			if (!ped_geometry_init (&probe_geom, geom->dev,
+						start / geom->dev->sector_size,
+						length))
 				return NULL;
-			ped_geometry_init (&probe_geom, geom->dev,
-					   start, block_count * block_size);
 			return _ext2_generic_probe (&probe_geom,
-                                                    expect_ext_ver);
+                                                    expect_ext_ver, 0);
 		} else {
 			return ped_geometry_new (geom->dev, geom->start,
-						 block_count * block_size);
+						 length);
 		}
 	}
 
@@ -100,19 +113,19 @@ _ext2_generic_probe (PedGeometry* geom, int expect_ext_ver)
 static PedGeometry*
 _ext2_probe (PedGeometry* geom)
 {
-	return _ext2_generic_probe (geom, 2);
+	return _ext2_generic_probe (geom, 2, 1);
 }
 
 static PedGeometry*
 _ext3_probe (PedGeometry* geom)
 {
-	return _ext2_generic_probe (geom, 3);
+	return _ext2_generic_probe (geom, 3, 1);
 }
 
 static PedGeometry*
 _ext4_probe (PedGeometry* geom)
 {
-	return _ext2_generic_probe (geom, 4);
+	return _ext2_generic_probe (geom, 4, 1);
 }
 
 static PedFileSystemOps _ext2_ops = {
-- 
2.43.0


From e98e3d620fe12f62288a5e1b32d7d62cde615386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 129/148] fix: amiga: find the partition blocks on little
 endian machines, and distrust them

---
 libparted/fs/amiga/affs.c  |  5 +++++
 libparted/fs/amiga/amiga.c |  2 +-
 libparted/fs/amiga/amiga.h |  3 +++
 libparted/fs/amiga/apfs.c  |  7 ++++++-
 libparted/fs/amiga/asfs.c  | 10 ++++++++--
 5 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/libparted/fs/amiga/affs.c b/libparted/fs/amiga/affs.c
index 750eab2..76ee76a 100644
--- a/libparted/fs/amiga/affs.c
+++ b/libparted/fs/amiga/affs.c
@@ -72,6 +72,11 @@ _generic_affs_probe (PedGeometry* geom, uint32_t kind)
 	}
 	free (part);
 
+	/* blocks are of 512 bytes to 32 KiB */
+	if (blocksize < 1 || blocksize > AMIGA_MAX_BLOCK_SECTORS
+	    || reserved < 1 || reserved >= geom->length / blocksize)
+		goto error_block;
+
 	/* Test boot block */
 	if (!(block = ped_malloc (PED_SECTOR_SIZE_DEFAULT*blocksize))) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
diff --git a/libparted/fs/amiga/amiga.c b/libparted/fs/amiga/amiga.c
index b5eef86..2a4bf32 100644
--- a/libparted/fs/amiga/amiga.c
+++ b/libparted/fs/amiga/amiga.c
@@ -330,7 +330,7 @@ amiga_find_part (PedGeometry *geom, struct PartitionBlock *part)
 		}
 
 		/* Current block is not a Partition Block */
-		if (part->pb_ID != IDNAME_PARTITION) {
+		if (PED_BE32_TO_CPU (part->pb_ID) != IDNAME_PARTITION) {
 			free (rdb);
 			return NULL;
 		}
diff --git a/libparted/fs/amiga/amiga.h b/libparted/fs/amiga/amiga.h
index 30f5b82..e408d68 100644
--- a/libparted/fs/amiga/amiga.h
+++ b/libparted/fs/amiga/amiga.h
@@ -51,6 +51,9 @@ struct PartitionBlock {
     uint32_t	pb_EReserved[12];
 };
 
+/* the largest block of a file system, in sectors */
+#define AMIGA_MAX_BLOCK_SECTORS	64
+
 #define PART(pos) ((struct PartitionBlock *)(pos))
 
 #define	PBFB_BOOTABLE	0	/* this partition is intended to be bootable */
diff --git a/libparted/fs/amiga/apfs.c b/libparted/fs/amiga/apfs.c
index aeaa1f3..1a6a046 100644
--- a/libparted/fs/amiga/apfs.c
+++ b/libparted/fs/amiga/apfs.c
@@ -65,6 +65,11 @@ _generic_apfs_probe (PedGeometry* geom, uint32_t kind)
 	}
 	free (part);
 
+	/* blocks are of 512 bytes to 32 KiB */
+	if (blocksize < 1 || blocksize > AMIGA_MAX_BLOCK_SECTORS
+	    || reserved >= geom->length / blocksize)
+		goto error_block;
+
 	/* Test boot block */
 	if (!(block = ped_malloc (PED_SECTOR_SIZE_DEFAULT*blocksize))) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
@@ -81,7 +86,7 @@ _generic_apfs_probe (PedGeometry* geom, uint32_t kind)
 	}
 
 	/* Find and test the root block */
-	root = geom->start+reserved*blocksize;
+	root = geom->start + (PedSector) reserved * blocksize;
 	if (!ped_device_read (geom->dev, block, root, blocksize)) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 			_("%s : Couldn't read root block %llu\n"), __func__, root);
diff --git a/libparted/fs/amiga/asfs.c b/libparted/fs/amiga/asfs.c
index c4c65e5..aeaf128 100644
--- a/libparted/fs/amiga/asfs.c
+++ b/libparted/fs/amiga/asfs.c
@@ -41,7 +41,8 @@ _asfs_probe_root (PedGeometry *geom, uint32_t *block, int blocksize, PedSector r
 	if (PED_BE32_TO_CPU (block[0]) != 0x53465300) return 0;
 	for (i = 0, sum = 1; i < 128*blocksize; i++) sum += PED_BE32_TO_CPU (block[i]);
 	if (sum != 0) return 0;
-	if (PED_BE32_TO_CPU (block[2]) * blocksize + geom->start != root) {
+	if ((PedSector) PED_BE32_TO_CPU (block[2]) * blocksize + geom->start
+	    != root) {
 		return 0;
 	}
 	start = ((((PedSector) PED_BE32_TO_CPU (block[8])) << 32)
@@ -78,6 +79,11 @@ _asfs_probe (PedGeometry* geom)
 	}
 	free (part);
 
+	/* blocks are of 512 bytes to 32 KiB */
+	if (blocksize < 1 || blocksize > AMIGA_MAX_BLOCK_SECTORS
+	    || blocksize > geom->length)
+		goto error_block;
+
 	/* Test boot block */
 	if (!(block = ped_malloc (PED_SECTOR_SIZE_DEFAULT*blocksize))) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
@@ -99,7 +105,7 @@ _asfs_probe (PedGeometry* geom)
 		found++;
 	}
 	root = geom->end - blocksize - (geom->length % blocksize) + 1;
-	if (!ped_device_read (geom->dev, block, root, 1)) {
+	if (!ped_device_read (geom->dev, block, root, blocksize)) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 			_("%s : Couldn't read root block %llu\n"), __func__, root);
 		goto error;
-- 
2.43.0


From c4535979d165122b6a327e53644ed95d5af4b6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 130/148] fix: btrfs: sectors can be larger than 8 KiB

---
 libparted/fs/btrfs/btrfs.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/libparted/fs/btrfs/btrfs.c b/libparted/fs/btrfs/btrfs.c
index 6eded8b..ccf463c 100644
--- a/libparted/fs/btrfs/btrfs.c
+++ b/libparted/fs/btrfs/btrfs.c
@@ -20,6 +20,7 @@
 
 #include <parted/parted.h>
 #include <parted/endian.h>
+#include <alloca.h>
 
 /* Located 64k inside the partition (start of the first btrfs superblock) */
 #define BTRFS_MAGIC 0x4D5F53665248425FULL /* ascii _BHRfS_M, no null */
@@ -30,25 +31,22 @@
 static PedGeometry*
 btrfs_probe (PedGeometry* geom)
 {
-        union {
-            struct {
+        struct {
                 /* Just enough of the btrfs_super_block to get the magic */
                 uint8_t csum[BTRFS_CSUM_SIZE];
                 uint8_t fsid[BTRFS_FSID_SIZE];
                 uint64_t bytenr;
                 uint64_t flags;
                 uint64_t magic;
-            } sb;
-            int8_t      sector[8192];
-        } buf;
+        } *sb = alloca (geom->dev->sector_size);
         PedSector offset = (64*1024)/geom->dev->sector_size;
 
         if (geom->length < offset+1)
                 return 0;
-        if (!ped_geometry_read (geom, &buf, offset, 1))
+        if (!ped_geometry_read (geom, sb, offset, 1))
                 return 0;
 
-        if (PED_LE64_TO_CPU(buf.sb.magic) == BTRFS_MAGIC) {
+        if (PED_LE64_TO_CPU(sb->magic) == BTRFS_MAGIC) {
                 return ped_geometry_new (geom->dev, geom->start, geom->length);
         }
         return NULL;
-- 
2.43.0


From c40c8ba8c6f288b4a9e9ba1df4ae6ae97fca05e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:17 +0000
Subject: [PATCH 131/148] fix: disk: clobber Amiga blocks on devices with large
 sectors too

---
 libparted/disk.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libparted/disk.c b/libparted/disk.c
index b80678e..36cb88c 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -338,6 +338,21 @@ ped_disk_clobber (PedDevice* dev)
         if (!ptt_clear_sectors (dev, first_sector, n))
           goto error_close_dev;
 
+	/* The rigid disk block of an Amiga label can be in any of the first
+	   16 sectors.  When the sectors are large, those are more than what
+	   has been cleared: look for it in the others.  */
+	for (PedSector s = first_sector + n; s < 16 && s < dev->length; s++) {
+		void *buf;
+		int ok = ptt_read_sector (dev, s, &buf);
+		if (!ok)
+			goto error_close_dev;
+		if (memcmp (buf, "RDSK", 4) == 0)
+			ok = ptt_clear_sectors (dev, s, 1);
+		free (buf);
+		if (!ok)
+			goto error_close_dev;
+	}
+
 	/* Clear the last few.  */
 	PedSector t = (dev->length -
 		       (n_sectors < dev->length ? n_sectors : 1));
-- 
2.43.0


From c804f3029b3335f84cf630f4dc13f784165562f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:17 +0000
Subject: [PATCH 132/148] fix: mac: leave nothing of another label in block
 zero

---
 libparted/labels/mac.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 333da43..a18a788 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -1041,6 +1041,11 @@ write_block_zero (PedDisk* disk, MacDiskData* mac_driverdata)
 		return 0;
 	MacRawDisk *raw_disk = (MacRawDisk *) s0;
 
+	/* Whatever another label left here (say a protective MBR) must not
+	   be found beside the new one.  */
+	if (raw_disk->signature != PED_CPU_TO_BE16 (MAC_DISK_MAGIC))
+		memset (s0, 0, dev->sector_size);
+
 	raw_disk->signature = PED_CPU_TO_BE16 (MAC_DISK_MAGIC);
 	raw_disk->block_size = PED_CPU_TO_BE16 (dev->sector_size);
 	raw_disk->block_count = PED_CPU_TO_BE32 (dev->length);
-- 
2.43.0


From b614687b1939819d3d3effbf3f57134a76b1425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:17 +0000
Subject: [PATCH 133/148] fix: loop: say why a device is too small

---
 libparted/labels/loop.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/loop.c b/libparted/labels/loop.c
index 3bc7389..dbaa096 100644
--- a/libparted/labels/loop.c
+++ b/libparted/labels/loop.c
@@ -79,8 +79,14 @@ loop_alloc (const PedDevice* dev)
 {
 	PED_ASSERT (dev != NULL);
 
-	if (dev->length < 256)
+	if (dev->length < 256) {
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_CANCEL,
+			_("%s is too small for a %s disk label."),
+			dev->path, "loop");
 		return NULL;
+	}
 	PedDisk *disk = _ped_disk_alloc ((PedDevice*)dev, &loop_disk_type);
 	PED_ASSERT (disk != NULL);
 	PedGeometry *geom = ped_geometry_new (dev, 0, dev->length);
-- 
2.43.0


From 714b44ea381356227fad159fb47fc3a05ccf99d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:51 +0000
Subject: [PATCH 134/148] fix: atari: give a new partition an id

---
 libparted/labels/atari.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libparted/labels/atari.c b/libparted/labels/atari.c
index 068bbd7..308e0e8 100644
--- a/libparted/labels/atari.c
+++ b/libparted/labels/atari.c
@@ -1265,6 +1265,10 @@ atari_partition_new (const PedDisk* disk, PedPartitionType part_type,
 		if (!atrpart)
 			goto error_free_part;
 		memset (atrpart, 0, sizeof (AtariPart));
+		/* without an ID no partition of the table is recognised */
+		strcpy (atrpart->part_id, part_type & PED_PARTITION_EXTENDED
+					  ? "XGM" : "RAW");
+		strcpy (atrpart->icd_id, atrpart->part_id);
 	} else {
 		part->disk_specific = NULL;
 	}
-- 
2.43.0


From a0fef32375e61f863671d4332c29ca58bba421f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:51 +0000
Subject: [PATCH 135/148] fix: dos: refuse type ids that make a partition
 vanish

---
 libparted/labels/dos.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 903ecd3..fcb4f54 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1784,6 +1784,16 @@ msdos_partition_set_type_id (PedPartition* part, uint8_t id)
                 return 0;
         }
 
+        /* An entry of type 0 is unused, and a table that has one of type 0xee
+           is taken for the protective MBR of a GPT.  */
+        if (id == PARTITION_EMPTY || id == PARTITION_GPT) {
+                ped_exception_throw (
+                        PED_EXCEPTION_ERROR,
+                        PED_EXCEPTION_CANCEL,
+                        _("A partition can't have the type 0x%02x."), id);
+                return 0;
+        }
+
         dos_data->system = id;
 
         return 1;
-- 
2.43.0


From 1c956ec77fa96ca86fab42646667dab62f6fc61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:51 +0000
Subject: [PATCH 136/148] fix: gpt: refuse the type of an unused entry

---
 libparted/labels/gpt.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index b86b6a6..e4aa493 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -1802,6 +1802,15 @@ gpt_partition_set_type_uuid (PedPartition *part, const uint8_t *uuid)
 {
   GPTPartitionData *gpt_part_data = part->disk_specific;
 
+  /* An entry with this type is unused.  */
+  if (!memcmp (uuid, &UNUSED_ENTRY_GUID, sizeof (efi_guid_t)))
+    {
+      ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+                           _("A partition can't have the type of an unused "
+                             "entry."));
+      return 0;
+    }
+
   efi_guid_t* type_uuid = &gpt_part_data->type;
   memcpy(type_uuid, uuid, sizeof (efi_guid_t));
 
-- 
2.43.0


From ebfab352da176f4ca41ff4c948ee2326d610e67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:51 +0000
Subject: [PATCH 137/148] fix: dos: no hidden flag for type 0x15

---
 libparted/labels/dos.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index fcb4f54..4e2ab75 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1750,8 +1750,10 @@ msdos_partition_is_flag_available (const PedPartition* part,
 
 	switch (flag) {
 	case PED_PARTITION_HIDDEN:
-		/* a hidden extended partition is not recognised as one */
+		/* a hidden extended partition is not recognised as one, and
+		   made visible it would be */
 		return !(part->type & PED_PARTITION_EXTENDED)
+		       && dos_data->system != PARTITION_DOS_EXT_H
 		       && dos_type_id_supports_hidden(dos_data->system);
 
 	case PED_PARTITION_LBA:
-- 
2.43.0


From a81dd375d0df3395b3518561dc0578ace0b1ac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:51 +0000
Subject: [PATCH 138/148] fix: gpt: recognise a table by either header

---
 libparted/labels/gpt.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index e4aa493..c5e4cf8 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -552,14 +552,16 @@ gpt_probe (const PedDevice *dev)
   free (label);
 
   void *pth_raw = ped_malloc (pth_get_size (dev));
-  if (ped_device_read (dev, pth_raw, 1, GPT_HEADER_SECTORS)
-      || ped_device_read (dev, pth_raw, dev->length - 1, GPT_HEADER_SECTORS))
-    {
-      GuidPartitionTableHeader_t *gpt = pth_new_from_raw (dev, pth_raw);
-      if (gpt->Signature == PED_CPU_TO_LE64 (GPT_HEADER_SIGNATURE))
-        gpt_sig_found = 1;
-      pth_free (gpt);
-    }
+  /* Either header will do: the other one may be lost.  */
+  PedSector const header[2] = { 1, dev->length - 1 };
+  for (int i = 0; i < 2 && !gpt_sig_found; i++)
+    if (ped_device_read (dev, pth_raw, header[i], GPT_HEADER_SECTORS))
+      {
+        GuidPartitionTableHeader_t *gpt = pth_new_from_raw (dev, pth_raw);
+        if (gpt->Signature == PED_CPU_TO_LE64 (GPT_HEADER_SIGNATURE))
+          gpt_sig_found = 1;
+        pth_free (gpt);
+      }
   free (pth_raw);
 
   return gpt_sig_found;
-- 
2.43.0


From 17a3bee4bfeb739cb4381a5d9cc17434b8228985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:51 +0000
Subject: [PATCH 139/148] fix: disk: do not clobber when an existing table is
 repaired

---
 libparted/disk.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/disk.c b/libparted/disk.c
index 36cb88c..0e4ecb9 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -509,7 +509,8 @@ ped_disk_commit_to_dev (PedDisk* disk)
 	if (!ped_device_open (disk->dev))
 		goto error;
 
-	if (disk->needs_clobber) {
+	/* a table that is repaired while it is read is there already */
+	if (disk->needs_clobber > 0) {
 		if (!ped_disk_clobber (disk->dev))
 			goto error_close_dev;
 		disk->needs_clobber = 0;
-- 
2.43.0


From 479dcbd8a7e79b05f750a28572cd9f820d581a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:59 +0000
Subject: [PATCH 140/148] fix: gpt: clear an old backup only when the new one
 is written

---
 libparted/labels/gpt.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index c5e4cf8..614118c 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -860,9 +860,6 @@ _parse_header (PedDisk *disk, const GuidPartitionTableHeader_t *gpt,
       if (q == PED_EXCEPTION_FIX)
         {
           last_usable = last_usable_if_grown;
-          /* clear the old backup gpt header */
-          ptt_clear_sectors (disk->dev,
-                             gpt_disk_data->AlternateLBA, 1);
           gpt_disk_data->AlternateLBA = disk->dev->length - 1;
           *update_needed = 1;
         }
@@ -1041,6 +1038,10 @@ gpt_read (PedDisk *disk)
       return 0;
     }
 
+#ifndef DISCOVER_ONLY
+  PedSector old_alternate = gpt_disk_data->AlternateLBA;
+#endif
+
   if (primary_gpt && backup_gpt)
     {
       /* Both are valid.  */
@@ -1061,8 +1062,6 @@ gpt_read (PedDisk *disk)
                      "should be.  Fix, by moving the backup to the end "
                      "(and removing the old backup)?")) == PED_EXCEPTION_FIX)
             {
-              ptt_clear_sectors (disk->dev,
-                                 PED_LE64_TO_CPU (primary_gpt->AlternateLBA), 1);
               gpt_disk_data->AlternateLBA = disk->dev->length -1;
               write_back = 1;
             }
@@ -1159,8 +1158,17 @@ gpt_read (PedDisk *disk)
   free (ptes);
 
 #ifndef DISCOVER_ONLY
-  if (write_back)
-    ped_disk_commit_to_dev (disk);
+  if (write_back && ped_disk_commit_to_dev (disk))
+    {
+      /* Clear the old backup gpt header, but only now that there is a new
+         one, and unless the new one has taken its place.  */
+      size_t ss = disk->dev->sector_size;
+      PedSector ptes_sectors
+        = ((gpt_disk_data->entry_count * sizeof (GuidPartitionEntry_t)
+            + ss - 1) / ss);
+      if (old_alternate < gpt_disk_data->AlternateLBA - ptes_sectors)
+        ptt_clear_sectors (disk->dev, old_alternate, 1);
+    }
 #endif
 
   pth_free (gpt);
-- 
2.43.0


From 49a08f966a1d137a20f1338d954e32222355bdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:59 +0000
Subject: [PATCH 141/148] fix: gpt: find the backup when only the entries of
 the primary are bad

---
 libparted/labels/gpt.c | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 614118c..ff5eec2 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -706,9 +706,11 @@ check_PE_array_CRC (PedDisk const *disk,
   return 0;
 }
 
+/* Check the header GPT, which was read from MY_LBA, but not the
+   partition entries it refers to.  */
 static int
-_header_is_valid (PedDisk const *disk, GuidPartitionTableHeader_t *gpt,
-                  PedSector my_lba)
+_header_is_intact (PedDisk const *disk, GuidPartitionTableHeader_t *gpt,
+                   PedSector my_lba)
 {
   uint32_t crc, origcrc;
   PedDevice const *dev = disk->dev;
@@ -750,10 +752,6 @@ _header_is_valid (PedDisk const *disk, GuidPartitionTableHeader_t *gpt,
   if (alt_lba == my_lba)
     return 0;
 
-  bool crc_match;
-  if (check_PE_array_CRC (disk, gpt, &crc_match) != 0 || !crc_match)
-    return 0;
-
   PedSector first_usable = PED_LE64_TO_CPU (gpt->FirstUsableLBA);
   if (first_usable < 3)
     return 0;
@@ -771,6 +769,16 @@ _header_is_valid (PedDisk const *disk, GuidPartitionTableHeader_t *gpt,
   return crc == PED_LE32_TO_CPU (origcrc);
 }
 
+static int
+_header_is_valid (PedDisk const *disk, GuidPartitionTableHeader_t *gpt,
+                  PedSector my_lba)
+{
+  bool crc_match;
+
+  return (_header_is_intact (disk, gpt, my_lba)
+          && check_PE_array_CRC (disk, gpt, &crc_match) == 0 && crc_match);
+}
+
 /* Return the number of sectors that should be used by the
  * partition entry table.
  */
@@ -912,7 +920,7 @@ _parse_part_entry (PedDisk *disk, GuidPartitionEntry_t *pte)
 
 /* Read the primary GPT at sector 1 of DEV.
    Verify its CRC and that of its partition entry array.
-   If they are valid, read the backup GPT specified by AlternateLBA.
+   If the header is valid, read the backup GPT specified by AlternateLBA.
    If not, read the backup GPT in the last sector of the disk.
    Return 1 if any read fails.
    Upon successful verification of the primary GPT, set *PRIMARY_GPT, else NULL.
@@ -949,15 +957,17 @@ gpt_read_headers (PedDisk const *disk,
   GuidPartitionTableHeader_t *pri = t;
 
   bool valid_primary = _header_is_valid (disk, pri, 1);
+  uint64_t alternate = dev->length - 1;
+  if (valid_primary
+      || (_header_is_intact (disk, pri, 1)
+          && PED_LE64_TO_CPU (pri->AlternateLBA) < dev->length))
+    alternate = PED_LE64_TO_CPU (pri->AlternateLBA);
   if (valid_primary)
     *primary_gpt = pri;
   else
     pth_free (pri);
 
-  gpt_disk_data->AlternateLBA =
-    (valid_primary
-     ? PED_LE64_TO_CPU (pri->AlternateLBA)
-     : dev->length - 1);
+  gpt_disk_data->AlternateLBA = alternate;
 
   void *s_bak;
   if (!ptt_read_sector (dev, gpt_disk_data->AlternateLBA ,&s_bak))
@@ -1343,12 +1353,13 @@ gpt_write (const PedDisk *disk)
   pth_free (gpt);
   if (pth_raw == NULL)
     goto error_free_ptes;
-  int write_ok = ped_device_write (disk->dev, pth_raw, 1, 1);
+  /* The entries come first: until they are complete, the old header must
+     say where the old backup is.  */
+  int write_ok = (ped_device_write (disk->dev, ptes, 2, ptes_sectors)
+                  && ped_device_write (disk->dev, pth_raw, 1, 1));
   free (pth_raw);
   if (!write_ok)
     goto error_free_ptes;
-  if (!ped_device_write (disk->dev, ptes, 2, ptes_sectors))
-    goto error_free_ptes;
 
   /* Write Alternate PTH & PTEs */
   /* FIXME: Caution: this code is nearly identical to what's just above. */
-- 
2.43.0


From c90524f928e3b64155ec7461858104c4d9ebe369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:08 +0000
Subject: [PATCH 142/148] fix: atari: linux-swap partitions are SWP

---
 libparted/labels/atari.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/atari.c b/libparted/labels/atari.c
index 308e0e8..71022bc 100644
--- a/libparted/labels/atari.c
+++ b/libparted/labels/atari.c
@@ -42,6 +42,7 @@
 #include <ctype.h>
 #include <stddef.h>
 
+#include "misc.h"
 #include "pt-tools.h"
 
 #if ENABLE_NLS
@@ -1340,7 +1341,9 @@ atari_partition_set_system (PedPartition* part,
 
 	for (fs2id = atr_fs2pid; fs2id->fs; fs2id++) {
 		if (!*fs2id->fs    /* default entry */
-		    || ((!strcmp (fs_type->name, fs2id->fs)
+		    || (((!strcmp (fs_type->name, fs2id->fs)
+			  || (is_linux_swap (fs2id->fs)
+			      && is_linux_swap (fs_type->name)))
 		        && part->geom.length < fs2id->max_sectors))) {
 
 			strcpy (atrpart->part_id, fs2id->pid);
-- 
2.43.0


From b6feddef41b7513d1b619ac2753f5633beb73450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:53 +0000
Subject: [PATCH 143/148] fix: disk: clobber the end of a device first

---
 libparted/disk.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/libparted/disk.c b/libparted/disk.c
index 0e4ecb9..c98e8b5 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -331,6 +331,18 @@ ped_disk_clobber (PedDevice* dev)
 	   the final sector.  */
 	const PedSector n_sectors = 9 * 1024 / dev->sector_size + 1;
 
+	/* Clear the last few.  They go first, so that what is left of a GPT
+	   there does not come to light when an error or a crash ends this
+	   after the label in front of it was cleared.  */
+	PedSector t = (dev->length -
+		       (n_sectors < dev->length ? n_sectors : 1));
+
+        /* Don't clobber the pMBR if we have a pathologically small disk.  */
+        if (t < first_sector)
+          t = first_sector;
+        if (!ptt_clear_sectors (dev, t, dev->length - t))
+          goto error_close_dev;
+
 	/* Clear the first few.  */
 	PedSector n = n_sectors;
 	if (dev->length < first_sector + n_sectors)
@@ -353,16 +365,6 @@ ped_disk_clobber (PedDevice* dev)
 			goto error_close_dev;
 	}
 
-	/* Clear the last few.  */
-	PedSector t = (dev->length -
-		       (n_sectors < dev->length ? n_sectors : 1));
-
-        /* Don't clobber the pMBR if we have a pathologically small disk.  */
-        if (t < first_sector)
-          t = first_sector;
-        if (!ptt_clear_sectors (dev, t, dev->length - t))
-          goto error_close_dev;
-
 	ped_device_close (dev);
 	return 1;
 
-- 
2.43.0


From d6faaf5c4d0d4339517798e4df1726b350448df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:20 +0000
Subject: [PATCH 144/148] fix: linux: say that a device has no room at all

---
 libparted/arch/linux.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index a651bc5..d82baaf 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -832,6 +832,7 @@ _device_get_length (PedDevice* dev)
         uint64_t bytes=0;
         const char*             test_str;
         PedSector               test_size;
+        PedSector               length;
 
 
         PED_ASSERT (dev->open_count > 0);
@@ -844,7 +845,8 @@ _device_get_length (PedDevice* dev)
 
         if (_kernel_has_blkgetsize64()) {
                 if (ioctl(arch_specific->fd, BLKGETSIZE64, &bytes) == 0) {
-                        return bytes / dev->sector_size;
+                        length = bytes / dev->sector_size;
+                        goto known;
                 }
         }
 
@@ -859,7 +861,18 @@ _device_get_length (PedDevice* dev)
         }
 
         /* SIZE is in units of 512 bytes */
-        return size / (dev->sector_size / PED_SECTOR_SIZE_DEFAULT);
+        length = size / (dev->sector_size / PED_SECTOR_SIZE_DEFAULT);
+
+known:
+        if (!length)
+                ped_exception_throw (
+                        PED_EXCEPTION_ERROR,
+                        PED_EXCEPTION_CANCEL,
+                        _("The device %s is so small that it cannot possibly "
+                          "store a file system or partition table.  Perhaps "
+                          "you selected the wrong device?"),
+                        dev->path);
+        return length;
 }
 
 static int
@@ -1227,9 +1240,11 @@ init_file (PedDevice* dev)
         }
         dev->phys_sector_size = dev->sector_size;
 
-        if (S_ISBLK(dev_stat.st_mode))
+        if (S_ISBLK(dev_stat.st_mode)) {
                 dev->length = _device_get_length (dev);
-        else
+                if (!dev->length)
+                        goto error_close_dev;
+        } else
                 dev->length = dev_stat.st_size / dev->sector_size;
         if (dev->length <= 0) {
                 ped_exception_throw (
@@ -1340,8 +1355,10 @@ init_generic (PedDevice* dev, const char* model_name)
         } else {
 		dev->length = _device_get_length (dev);
 		if (!dev->length) {
-			ped_exception_catch ();
+			/* the user has to be told why */
 			ped_exception_leave_all ();
+			if (ped_exception)
+				ped_exception_rethrow ();
 			goto error_close_dev;
 		}
 
-- 
2.43.0


From bb9dae8a1751a9996f63ab5bf615877a0fddd355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:20 +0000
Subject: [PATCH 145/148] fix: linux: free a vendor or product that comes alone

---
 libparted/arch/linux.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index d82baaf..1d7ec5e 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1159,6 +1159,8 @@ scsi_get_product_info (PedDevice* dev, char **vendor, char **product)
         if (*vendor && *product)
                 return 1;
 
+        free (*vendor);
+        free (*product);
         return scsi_query_product_info (dev, vendor, product);
 }
 
-- 
2.43.0


From d9a8f520152530dfeb7eeb8831da5c591597910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:20 +0000
Subject: [PATCH 146/148] fix: mac: free the map entry that a duplicate has for
 itself

---
 libparted/labels/mac.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index a18a788..08056e5 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -339,6 +339,7 @@ mac_duplicate (const PedDisk* disk)
 	   depends on that destruction not freeing its PART parameter.  */
 	PED_ASSERT (partition_map->type == PED_PARTITION_NORMAL);
 	ped_disk_remove_partition (new_disk, partition_map);
+	ped_partition_destroy (partition_map);
 
 	/* ugly, but C is ugly :p */
 	memcpy (new_mac_data, old_mac_data, sizeof (MacDiskData));
-- 
2.43.0


From ba185deb898b8994f1441587a477ff691714ae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:20 +0000
Subject: [PATCH 147/148] fix: labels: free a partition that can't be added

---
 libparted/labels/bsd.c | 4 +++-
 libparted/labels/dos.c | 4 +++-
 libparted/labels/mac.c | 4 +++-
 libparted/labels/sun.c | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/libparted/labels/bsd.c b/libparted/labels/bsd.c
index bfd41d0..6e8453d 100644
--- a/libparted/labels/bsd.c
+++ b/libparted/labels/bsd.c
@@ -294,8 +294,10 @@ bsd_read (PedDisk* disk)
 			goto error;
 		bool ok = ped_disk_add_partition (disk, part, constraint_exact);
 		ped_constraint_destroy (constraint_exact);
-		if (!ok)
+		if (!ok) {
+			ped_partition_destroy (part);
 			goto error;
+		}
 	}
 
 	return 1;
diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 4e2ab75..f61aa88 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1236,8 +1236,10 @@ read_table (PedDisk* disk, PedSector sector, int is_extended_table,
 		  = ped_constraint_exact (&part->geom);
 		bool ok = ped_disk_add_partition (disk, part, constraint_exact);
 		ped_constraint_destroy (constraint_exact);
-		if (!ok)
+		if (!ok) {
+			ped_partition_destroy (part);
 			goto error;
+		}
 
 		/* non-nested extended partition */
 		if (part->type == PED_PARTITION_EXTENDED) {
diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 08056e5..d7f5be3 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -810,8 +810,10 @@ mac_read (PedDisk* disk)
 			goto error_delete_all;
 		bool ok = ped_disk_add_partition (disk, part, constraint_exact);
 		ped_constraint_destroy (constraint_exact);
-		if (!ok)
+		if (!ok) {
+			ped_partition_destroy (part);
 			goto error_delete_all;
+		}
 
 		if (_rawpart_is_partition_map (raw_part)) {
 			if (mac_disk_data->part_map_entry_num
diff --git a/libparted/labels/sun.c b/libparted/labels/sun.c
index 062e68f..e14817a 100644
--- a/libparted/labels/sun.c
+++ b/libparted/labels/sun.c
@@ -382,8 +382,10 @@ sun_read (PedDisk* disk)
 			goto error;
 		bool ok = ped_disk_add_partition (disk, part, constraint_exact);
 		ped_constraint_destroy (constraint_exact);
-		if (!ok)
+		if (!ok) {
+			ped_partition_destroy (part);
 			goto error;
+		}
 	}
 
 	return 1;
-- 
2.43.0


From 3b5837206a65b813156378647fa9980fe0162c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:26 +0000
Subject: [PATCH 148/148] fix: partprobe: don't take an unreadable device for
 an empty one

---
 partprobe/partprobe.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/partprobe/partprobe.c b/partprobe/partprobe.c
index bdd8963..9c1010e 100644
--- a/partprobe/partprobe.c
+++ b/partprobe/partprobe.c
@@ -100,6 +100,22 @@ summary (PedDisk* disk)
 	printf ("\n");
 }
 
+/* Can the sectors be read that say which partition table DEV has?  */
+static int
+can_read_start (PedDevice* dev)
+{
+	PedSector	count = PED_MIN (16, dev->length);
+	void*		buf;
+	int		ok;
+
+	buf = ped_malloc (count * dev->sector_size);
+	if (!buf)
+		return 0;
+	ok = ped_device_read (dev, buf, 0, count);
+	free (buf);
+	return ok;
+}
+
 static int
 process_dev (PedDevice* dev)
 {
@@ -111,6 +127,11 @@ process_dev (PedDevice* dev)
 
 	disk_type = ped_disk_probe (dev);
 	if (!disk_type) {
+		/* Not being able to look is no reason to say that there
+		   are no partitions */
+		if (!can_read_start (dev))
+			goto error;
+
 		/* Partition table not found, so create dummy,
 		   empty one */
 		disk_type = ped_disk_type_get("msdos");
-- 
2.43.0

