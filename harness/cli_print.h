/* P22: what print says is what the table holds, in every mode and unit */
#define NT 64
static struct { char name[60]; McGeom g; McImage *im; } tab[NT]; static int ntab;
static const char *const odd[] = { "plain", "colon:in:name", "back\\slash", "quote\"d", "semi;colon", "tab\there", "line\nbreak", "bell\a\x01\x1b[0m", "caf\303\251",
  "\346\227\245\346\234\254\350\252\236", "e\314\201\314\202\314\203combining", "", " leading and trailing ", "0123456789abcdef0123456789abcdef0123", "\\:", "trailing\\", "a,b", "{}[]", "\x7f", "%s%n", "\360\237\230\200" };
#define NODD ((int) (sizeof odd / sizeof *odd))
static const char *const units[] = { "s", "B", "kB", "MB", "GB", "TB", "compact", "cyl", "chs", "%", "kiB", "MiB", "GiB", "TiB" };
#define NUNIT 14
static const char *const modes[] = { "-sm", "-sj", "-s", "" };
static void mk (const char *nm, const char *label, McGeom g, int what)
{
  geom = g; PedDevice *dev = mc_device (&g); mc_ans = ANS_IGNORE;
  PedDisk *d = NULL;
  if (label) {
    d = ped_disk_new_fresh (dev, ped_disk_type_get (label));
    if (ped_disk_is_flag_available (d, PED_DISK_CYLINDER_ALIGNMENT)) ped_disk_set_flag (d, PED_DISK_CYLINDER_ALIGNMENT, 0);
    bool ext = ped_disk_type_check_feature (d->type, PED_DISK_TYPE_EXTENDED), dvh = !strcmp (label, "dvh");
    PedSector L = g.length, c = g.heads * g.sects, b = dvh ? 5000 : 2 * c;
    if (what >= 100) {            /* one odd name each */
      const char *n = odd[what - 100];
      add (d, 0, "ext2", b, b + 2 * c - 1, n);
      PedPartition *p = ped_disk_get_partition_by_sector (d, b);
      if (*n && strcmp (label, "dvh") && strcmp (ped_partition_get_name (p), n)) { ped_disk_destroy (d); return; }       /* the label cannot hold it */
    } else if (what == 1) { add (d, 0, "ext2", b, b + 2 * c - 1, "one"); if (!ext || dvh) add (d, 0, "fat32", b + 3 * c, b + 5 * c - 1, "two:2"); if (ext && !dvh) { add (d, 2, NULL, b + 3 * c, L - 2 * c - 1, NULL); add (d, 1, "ext2", b + 3 * c + 32, b + 4 * c - 1, NULL); add (d, 1, "linux-swap(v1)", b + 5 * c, b + 6 * c - 3, NULL); }
      if (dvh) add (d, 1, NULL, 100, 300, "boot:\\1"); }
    else if (what == 2) { int n = 0; for (PedSector s = b; s + 20 < L && n < (!strcmp (label, "mac") ? 28 : 140); s += 40, n++) { PedPartition *p = ped_partition_new (d, 0, NULL, s, s + 19); PedConstraint *k = ped_constraint_any (dev); if (!p || !ped_disk_add_partition (d, p, k)) break; ped_constraint_destroy (k); } }
    else if (what == 3) { add (d, 2, NULL, b, L - 100, NULL); int n = 0; for (PedSector s = b + 10; s + 120 < L && n < 120; s += 40, n++) { PedPartition *p = ped_partition_new (d, 1, NULL, s, s + 19); PedConstraint *k = ped_constraint_any (dev); if (!p || !ped_disk_add_partition (d, p, k)) break; ped_constraint_destroy (k); } }
    else if (what == 4) {          /* every flag */
      add (d, 0, "ext2", b, b + 2 * c - 1, "flags"); PedPartition *p = ped_disk_get_partition_by_sector (d, b);
      for (PedPartitionFlag f = ped_partition_flag_next (0); f; f = ped_partition_flag_next (f)) if (ped_partition_is_flag_available (p, f)) ped_partition_set_flag (p, f, 1);
      for (PedDiskFlag f = ped_disk_flag_next (0); f; f = ped_disk_flag_next (f)) if (f != PED_DISK_CYLINDER_ALIGNMENT && ped_disk_is_flag_available (d, f)) ped_disk_set_flag (d, f, 1); }
    if (!ped_disk_commit_to_dev (d)) { fprintf (stderr, "setup %s: %s\n", nm, mc_exc_msg); exit (3); }
    ped_disk_destroy (d);
  }
  if (ntab == NT) { fprintf (stderr, "too many tables\n"); exit (3); }
  /* a file system to be found: swap signature in the first partition */
  snprintf (tab[ntab].name, 60, "%s", nm); tab[ntab].g = g; tab[ntab].im = mc_image_save (); ntab++;
}
static void p22 (int cfg) {}

/* --- JSON --- */
typedef struct J { int t; char *s; long long n; struct J *kid, *next; char *key; } J;    /* t: 0 object 1 array 2 string 3 number 4 other */
static const char *jp; static bool jerr;
static void jws (void) { while (*jp == ' ' || *jp == '\n' || *jp == '\t' || *jp == '\r') jp++; }
static char *jstr (void)
{
  char *o = malloc (strlen (jp) + 8), *q = o; if (*jp != '"') { jerr = true; *o = 0; return o; } jp++;
  while (*jp && *jp != '"') {
    if ((unsigned char) *jp < 0x20) jerr = true;
    if (*jp == '\\') { jp++;
      switch (*jp) { case 'n': *q++ = '\n'; break; case 't': *q++ = '\t'; break; case 'r': *q++ = '\r'; break; case 'b': *q++ = '\b'; break; case 'f': *q++ = '\f'; break;
        case '"': case '\\': case '/': *q++ = *jp; break;
        case 'u': { char h[5] = { 0 }; for (int i = 0; i < 4; i++) { if (!isxdigit ((unsigned char) jp[1 + i])) { jerr = true; *q = 0; return o; } h[i] = jp[1 + i]; } int c = strtol (h, NULL, 16); if (c < 0x80) *q++ = c; else jerr = true; jp += 4; break; }
        default: jerr = true; *q = 0; return o; }
      jp++;
    } else *q++ = *jp++;
  }
  if (*jp != '"') jerr = true; else jp++;
  *q = 0; return o;
}
static J *jval (int depth)
{
  J *j = calloc (1, sizeof *j); jws ();
  if (depth > 10) { jerr = true; return j; }
  if (*jp == '{' || *jp == '[') {
    char e = *jp == '{' ? '}' : ']'; j->t = *jp == '{' ? 0 : 1; jp++; jws (); J **tail = &j->kid;
    if (*jp == e) { jp++; return j; }
    while (!jerr) {
      char *k = NULL; jws (); if (!j->t) { k = jstr (); jws (); if (*jp != ':') jerr = true; else jp++; }
      J *v = jval (depth + 1); v->key = k;
      for (J *o = j->kid; o; o = o->next) if (k && !strcmp (o->key, k)) jerr = true;
      *tail = v; tail = &v->next; jws ();
      if (*jp == ',') { jp++; continue; }
      if (*jp == e) { jp++; break; }
      jerr = true;
    }
  } else if (*jp == '"') { j->t = 2; j->s = jstr (); }
  else if (*jp == '-' || isdigit ((unsigned char) *jp)) { j->t = 3; char *e; j->n = strtoll (jp, &e, 10); jp = e; }
  else { jerr = true; }
  return j;
}
static J *jget (J *o, const char *k) { for (J *j = o ? o->kid : NULL; j; j = j->next) if (j->key && !strcmp (j->key, k)) return j; return NULL; }
static const char *js (J *o, const char *k) { J *j = jget (o, k); return j && j->t == 2 ? j->s : ""; }
static long long jn (J *o, const char *k) { J *j = jget (o, k); return j && j->t == 3 ? j->n : -1; }

/* split a machine line at ':' with \ as the escape; the last field ends with ';' */
static int mfields (char *line, char **f, int max)
{
  int n = 0; char *r = line, *w = line; f[n++] = w;
  while (*r) { if (*r == '\\' && r[1]) { r++; *w++ = *r++; } else if (*r == ':') { *w++ = 0; r++; if (n < max) f[n++] = w; } else *w++ = *r++; }
  *w = 0; if (w > line && w[-1] == ';') w[-1] = 0;
  return n;
}
static int p22_units, p22_n;
#define PF(key, ...) do { char _m[900]; snprintf (_m, 900, __VA_ARGS__); outb[1800] = 0; mc_fail (key, "%s, parted %s unit %s print%s: %s\n%s%.300s", tab[ti].name, mode, unit, fr ? " free" : "", _m, outb, errb); } while (0)
static const char *const tports[] = { "unknown", "scsi", "ide", "dac960", "cpqarray", "file" };
static void flags_of (PedDisk *d, PedPartition *p, char *o)
{
  *o = 0; const char *sep = "";
  if (p) { for (PedPartitionFlag f = ped_partition_flag_next (0); f; f = ped_partition_flag_next (f)) if (ped_partition_is_flag_available (p, f) && ped_partition_get_flag (p, f)) { o += sprintf (o, "%s%s", sep, ped_partition_flag_get_name (f)); sep = ", "; } }
  else for (PedDiskFlag f = ped_disk_flag_next (0); f; f = ped_disk_flag_next (f)) if (ped_disk_is_flag_available (d, f) && ped_disk_get_flag (d, f)) { o += sprintf (o, "%s%s", sep, ped_disk_flag_get_name (f)); sep = ", "; }
}
static void jflags (J *o, char *b) { *b = 0; J *a = jget (o, "flags"); const char *sep = ""; for (J *k = a ? a->kid : NULL; k; k = k->next) { b += sprintf (b, "%s%s", sep, k->s ? k->s : "?"); sep = ", "; } }
/* a name in the human table: without leading blanks, and with ? for what the locale cannot show */
static const char *shown (const char *n)
{
  static char b[400]; char *o = b; while (*n == ' ') n++;
  for (; *n && o < b + 390; n++) *o++ = (*n & 0x80) && MB_CUR_MAX == 1 ? '?' : *n;
  *o = 0; return b;
}
static void p22_run (long i)
{
  int fr = i % 2, ui = i / 2 % NUNIT, mi = i / 2 / NUNIT % 4, ti = i / 2 / NUNIT / 4;
  const char *mode = modes[mi], *unit = units[ui];
  geom = tab[ti].g; mc_device (&geom); mc_image_load (tab[ti].im);
  fault_at = 0;
  char ucmd[40]; snprintf (ucmd, 40, "unit %s", unit);
  const char *cm[] = { ucmd, fr ? "print free" : "print" };
  char o[60]; snprintf (o, 60, "%s", mode); char in[80]; snprintf (in, 80, "unit %s\n%s\n", unit, cm[1]);
  uint64_t h0 = store_sig ();
  if (!*mode) snprintf (o, 60, "---pretend-input-tty");
  Res r = *mode ? parted (o, cm, 2, NULL) : parted (o, NULL, 0, in);
  mc_count ("evaluations", 1);
  if (r.crashed) PF (r.hung ? "hang" : "crash", "crashes");
  if (store_sig () != h0 || r.nwrite) PF ("print-writes", "print wrote to the disk");
  mc_ans = ANS_DECLINE; int v = mc_verbose; mc_verbose = 0; PedDevice *dev = mc_device_keep (&geom); PedDisk *d = ped_disk_new (dev); mc_verbose = v;
  if (d && ped_disk_is_flag_available (d, PED_DISK_CYLINDER_ALIGNMENT)) ped_disk_set_flag (d, PED_DISK_CYLINDER_ALIGNMENT, 0);
  if (*mode && (r.status != 0) != !d) PF ("status", "exit status %d", r.status);
  PedUnit u = ped_unit_get_by_name (unit);
  char *size = ped_unit_format_custom_byte (dev, dev->length * dev->sector_size - (u == PED_UNIT_CHS || u == PED_UNIT_CYLINDER), u);
  const char *label = d ? d->type->name : "unknown";
  static char fl[600], fl2[600]; *fl = 0; if (d) flags_of (d, NULL, fl);
  bool ext = d && ped_disk_type_check_feature (d->type, PED_DISK_TYPE_EXTENDED), nm = d && ped_disk_type_check_feature (d->type, PED_DISK_TYPE_PARTITION_NAME);
  static char copy[200000]; strcpy (copy, outb);
  if (strcmp (tab[ti].name, "blank")) mc_nontrivial (mc_hash (outb, strlen (outb), mi));
  if (mi == 0) {
    char *line = copy, *nl; char *f[12];
    int k = 0; PedPartition *p = NULL;
    for (;; ) {
      /* a record ends with ";\n" */
      nl = strstr (line, ";\n"); if (!nl) break; nl[1] = 0;
      char raw[2000]; snprintf (raw, 2000, "%s", line);
      int nf = mfields (raw, f, 12);
      if (k == 0) { if (strcmp (line, u == PED_UNIT_CHS ? "CHS;" : u == PED_UNIT_CYLINDER ? "CYL;" : "BYT;")) PF ("machine-head", "first line is %s", line); }
      else if (k == 1) {
        char ss[20], ps[20]; snprintf (ss, 20, "%lld", geom.ss); snprintf (ps, 20, "%lld", geom.phys);
        if (nf != 8 || strcmp (f[0], "/mc/disk") || strcmp (f[1], size) || strcmp (f[2], tports[dev->type]) || strcmp (f[3], ss) || strcmp (f[4], ps) || strcmp (f[5], label) || strcmp (f[6], dev->model) || strcmp (f[7], fl)) PF ("machine-disk", "disk line is %s", line);
      } else if (k == 2 && (u == PED_UNIT_CHS || u == PED_UNIT_CYLINDER)) {
        char w[120]; char *cs = ped_unit_format_custom (dev, dev->bios_geom.heads * dev->bios_geom.sectors, PED_UNIT_KILOBYTE);
        snprintf (w, 120, "%d:%d:%d:%s;", dev->bios_geom.cylinders, dev->bios_geom.heads, dev->bios_geom.sectors, cs);
        if (strcmp (line, w)) PF ("machine-geometry", "geometry line is %s, want %s", line, w);
      } else {
        if (!d) PF ("machine-extra", "unexpected line %s", line);
        do p = ped_disk_next_partition (d, p); while (p && ((!fr && !ped_partition_is_active (p)) || (p->type & PED_PARTITION_METADATA)));
        if (!p) PF ("machine-extra", "no such partition: %s", line);
        char num[12]; snprintf (num, 12, "%d", p->num >= 0 ? p->num : 1);
        char *s = ped_unit_format_custom (dev, p->geom.start, u), *e = ped_unit_format_custom_byte (dev, (p->geom.end + 1) * dev->sector_size - 1, u), *z = ped_unit_format_custom (dev, p->geom.length, u);
        int c = u == PED_UNIT_CHS ? 3 : 4;
        if (nf < c || strcmp (f[0], num) || strcmp (f[1], s) || strcmp (f[2], e) || (c == 4 && strcmp (f[3], z))) PF ("machine-place", "%s, want %s:%s:%s:%s", line, num, s, e, z);
        if (p->type & PED_PARTITION_FREESPACE) { if (nf != c + 1 || strcmp (f[c], "free")) PF ("machine-free", "%s", line); }
        else {
          flags_of (d, p, fl2); const char *n = nm ? ped_partition_get_name (p) : "";
          if (nf != c + 3 || strcmp (f[c], p->fs_type ? p->fs_type->name : "") || strcmp (f[c + 1], n) || strcmp (f[c + 2], fl2)) PF ("machine-attr", "%s, want fs %s name %s flags %s", line, p->fs_type ? p->fs_type->name : "", n, fl2);
        }
        free (s); free (e); free (z);
      }
      k++; line = nl + 2;
    }
    if (*line) PF ("machine-rest", "unparsable: %s", line);
    if (d) { do p = ped_disk_next_partition (d, p); while (p && ((!fr && !ped_partition_is_active (p)) || (p->type & PED_PARTITION_METADATA))); if (p) PF ("machine-missing", "partition %d is missing", p->num); }
  } else if (mi == 1) {
    jerr = false; jp = copy; J *root = jval (0); jws (); if (jerr || *jp) PF ("json", "not valid JSON near '%.40s'", jp);
    J *disk = jget (root, "disk"); jflags (disk, fl2);
    if (!disk || strcmp (js (disk, "path"), "/mc/disk") || strcmp (js (disk, "size"), size) || strcmp (js (disk, "label"), label) || strcmp (js (disk, "model"), dev->model) || strcmp (js (disk, "transport"), tports[dev->type])
        || jn (disk, "logical-sector-size") != geom.ss || jn (disk, "physical-sector-size") != geom.phys) PF ("json-disk", "the disk differs");
    if (d) {
      if (strcmp (fl, fl2) || jn (disk, "max-partitions") != ped_disk_get_max_primary_partition_count (d)) PF ("json-disk", "the disk differs: flags %s, want %s", fl2, fl);
      if (ped_disk_type_check_feature (d->type, PED_DISK_TYPE_DISK_UUID)) { uint8_t *x = ped_disk_get_uuid (d); char b[40]; uuid_unparse_lower (x, b); if (strcmp (b, js (disk, "uuid"))) PF ("json-disk", "uuid"); free (x); }
      J *a = jget (disk, "partitions"), *q = a ? a->kid : NULL; if (!a) PF ("json", "no partitions");
      for (PedPartition *p = ped_disk_next_partition (d, NULL); p; p = ped_disk_next_partition (d, p)) {
        if ((!fr && !ped_partition_is_active (p)) || (p->type & PED_PARTITION_METADATA)) continue;
        if (!q) PF ("json-missing", "partition %d is missing", p->num);
        char *s = ped_unit_format_custom (dev, p->geom.start, u), *e = ped_unit_format_custom_byte (dev, (p->geom.end + 1) * dev->sector_size - 1, u), *z = ped_unit_format_custom (dev, p->geom.length, u);
        if (jn (q, "number") != (p->num >= 0 ? p->num : 0) || strcmp (js (q, "start"), s) || strcmp (js (q, "end"), e) || (u != PED_UNIT_CHS && strcmp (js (q, "size"), z)) || strcmp (js (q, "type"), ped_partition_type_get_name (p->type)))
          PF ("json-place", "partition %d: %lld %s %s %s %s, want %s %s %s", p->num, jn (q, "number"), js (q, "start"), js (q, "end"), js (q, "size"), js (q, "type"), s, e, z);
        free (s); free (e); free (z);
        if (!(p->type & PED_PARTITION_FREESPACE)) {
          flags_of (d, p, fl2); static char fl3[600]; jflags (q, fl3);
          if (strcmp (fl2, fl3)) PF ("json-flags", "partition %d has flags %s, want %s", p->num, fl3, fl2);
          if (strcmp (js (q, "name"), nm ? ped_partition_get_name (p) : "")) PF ("json-name", "partition %d is called %s, want %s", p->num, js (q, "name"), nm ? ped_partition_get_name (p) : "");
          if (strcmp (js (q, "filesystem"), p->fs_type ? p->fs_type->name : "")) PF ("json-fs", "partition %d: %s", p->num, js (q, "filesystem"));
          char w[40]; *w = 0;
          if (ped_disk_type_check_feature (d->type, PED_DISK_TYPE_PARTITION_TYPE_ID)) snprintf (w, 40, "0x%02x", ped_partition_get_type_id (p));
          if (strcmp (w, js (q, "type-id"))) PF ("json-type", "partition %d has type %s", p->num, js (q, "type-id"));
          *w = 0; if (ped_disk_type_check_feature (d->type, PED_DISK_TYPE_PARTITION_TYPE_UUID)) { uint8_t *x = ped_partition_get_type_uuid (p); uuid_unparse_lower (x, w); free (x); }
          if (strcmp (w, js (q, "type-uuid"))) PF ("json-type", "partition %d has type %s", p->num, js (q, "type-uuid"));
          *w = 0; if (ped_disk_type_check_feature (d->type, PED_DISK_TYPE_PARTITION_UUID)) { uint8_t *x = ped_partition_get_uuid (p); uuid_unparse_lower (x, w); free (x); }
          if (strcmp (w, js (q, "uuid"))) PF ("json-uuid", "partition %d has uuid %s", p->num, js (q, "uuid"));
        }
        q = q->next;
      }
      if (q) PF ("json-extra", "partition %lld does not exist", jn (q, "number"));
    }
  } else {
    char w[300]; snprintf (w, 300, "Partition Table: %s\n", label); if (!strstr (outb, w)) PF ("human-disk", "no line '%s'", w);
    snprintf (w, 300, "Disk /mc/disk: %s\n", size); if (!strstr (outb, w)) PF ("human-disk", "no line '%s'", w);
    snprintf (w, 300, "Disk Flags: %s\n", fl); if (!strstr (outb, w)) PF ("human-disk", "no line '%s'", w);
    snprintf (w, 300, "Sector size (logical/physical): %lldB/%lldB\n", geom.ss, geom.phys); if (!strstr (outb, w)) PF ("human-disk", "no line '%s'", w);
    char *t = strstr (outb, "\nNumber"); if (d && !t) PF ("human-table", "no table");
    if (d) {
      char *line = strchr (t + 1, '\n') + 1;
      for (PedPartition *p = ped_disk_next_partition (d, NULL); p; p = ped_disk_next_partition (d, p)) {
        if ((!fr && !ped_partition_is_active (p)) || (p->type & PED_PARTITION_METADATA)) continue;
        /* the row: every cell in its order */
        const char *cells[10]; int nc = 0; char num[12];
        if (p->num >= 0) snprintf (num, 12, "%2d ", p->num); else snprintf (num, 12, "   ");
        cells[nc++] = num; cells[nc++] = ped_unit_format_custom (dev, p->geom.start, u); cells[nc++] = ped_unit_format_custom_byte (dev, (p->geom.end + 1) * dev->sector_size - 1, u);
        if (u != PED_UNIT_CHS) cells[nc++] = ped_unit_format_custom (dev, p->geom.length, u);
        if (p->type & PED_PARTITION_FREESPACE) cells[nc++] = "Free Space";
        else { if (ext) cells[nc++] = ped_partition_type_get_name (p->type); cells[nc++] = p->fs_type ? p->fs_type->name : ""; if (nm) cells[nc++] = shown (ped_partition_get_name (p)); flags_of (d, p, fl2); cells[nc++] = fl2; }
        char *q = line;
        for (int c = 0; c < nc; c++) {
          bool here = !strncmp (q, cells[c], strlen (cells[c]));
          if (c) { while (!here && *q == ' ') { q++; here = !strncmp (q, cells[c], strlen (cells[c])); } }
          if (!*cells[c]) continue;
          if (!here) {
            /* trailing blanks of a row are cut */
            size_t k = strlen (cells[c]); while (k && cells[c][k - 1] == ' ') k--;
            if (k && k < strlen (cells[c]) && !strncmp (q, cells[c], k) && (q[k] == '\n' || q[k] == 0)) { q += k; continue; }
            PF ("human-row", "partition %d: cell %d should be '%s', the row is '%.120s'", p->num, c, cells[c], line);
          }
          q += strlen (cells[c]);
        }
        while (*q == ' ') q++;
        if (*q != '\n') PF ("human-row", "partition %d: the row goes on: '%.60s'", p->num, q);
        line = q + 1;
      }
      if (*mode && *line != '\n' && *line) PF ("human-extra", "more rows: %.80s", line);
    }
  }
  if (d) ped_disk_destroy (d);
  free (size);
}
static void p22_desc (long i, FILE *f) { fprintf (f, "%s: parted %s unit %s print%s", tab[i / 2 / NUNIT / 4].name, modes[i / 2 / NUNIT % 4], units[i / 2 % NUNIT], i % 2 ? " free" : ""); }
static int p22_main (int argc, char **argv)
{
  static const char *const ls[] = { "msdos", "gpt", "mac", "sun", "bsd", "dvh", "amiga", "pc98", "atari", "loop" };
  McGeom g = { .length = 20160, .ss = 512, .phys = 512, .heads = 16, .sects = 63 };
  McGeom g4 = { .length = 20160, .ss = 4096, .phys = 4096, .heads = 16, .sects = 63 };
  McGeom gp = { .length = 20160, .ss = 512, .phys = 4096, .heads = 16, .sects = 63 };
  char nm[60];
  mk ("blank", NULL, g, 0);
  for (int i = 0; i < 10; i++) { snprintf (nm, 60, "%s, empty", ls[i]); mk (nm, ls[i], g, 0); if (strcmp (ls[i], "loop")) { snprintf (nm, 60, "%s with partitions", ls[i]); mk (nm, ls[i], g, 1); } if (strcmp (ls[i], "loop")) { snprintf (nm, 60, "%s with flags", ls[i]); mk (nm, ls[i], g, 4); } }
  mk ("msdos 4k", "msdos", g4, 1); mk ("gpt 4k", "gpt", g4, 1); mk ("gpt 512/4096", "gpt", gp, 1);
  mk ("gpt full", "gpt", g, 2); mk ("msdos many logical", "msdos", g, 3); mk ("mac full", "mac", g, 2);
  for (int i = 0; i < NODD; i++) { snprintf (nm, 60, "gpt, odd name %d", i); mk (nm, "gpt", g, 100 + i); }
  for (int i = 0; i < NODD && ntab < NT - 1; i += mc_thorough ? 1 : 4) { snprintf (nm, 60, "mac, odd name %d", i); mk (nm, "mac", g, 100 + i); }
  McSweep s = { "P22", (long) ntab * 4 * NUNIT * 2, p22_run, p22_desc };
  return mc_sweep (&s, argc, argv);
}
