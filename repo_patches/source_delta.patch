From 62c1598c327d85f76d7c65651ee8492b3b4f4aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 01/21] fix: raw closures: hand the closure, not its code
 address, to the translation hub

ffi_prep_raw_closure_loc and ffi_prep_java_raw_closure_loc passed CODELOC as
the user data of the hub, which then read the real handler through it.  That
is only the closure where code and data share an address; with static
trampolines it is the trampoline's code.
---
 src/java_raw_api.c | 2 +-
 src/raw_api.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/java_raw_api.c b/src/java_raw_api.c
index 114d3e4..1c8f26b 100644
--- a/src/java_raw_api.c
+++ b/src/java_raw_api.c
@@ -345,7 +345,7 @@ ffi_prep_java_raw_closure_loc (ffi_java_raw_closure* cl,
   status = ffi_prep_closure_loc ((ffi_closure*) cl,
 				 cif,
 				 &ffi_java_translate_args,
-				 codeloc,
+				 cl,
 				 codeloc);
   if (status == FFI_OK)
     {
diff --git a/src/raw_api.c b/src/raw_api.c
index be15611..43cf975 100644
--- a/src/raw_api.c
+++ b/src/raw_api.c
@@ -233,7 +233,7 @@ ffi_prep_raw_closure_loc (ffi_raw_closure* cl,
   status = ffi_prep_closure_loc ((ffi_closure*) cl,
 				 cif,
 				 &ffi_translate_args,
-				 codeloc,
+				 cl,
 				 codeloc);
   if (status == FFI_OK)
     {
-- 
2.43.0


From 8fc86c323365151a22df98107c27351aeed3ce6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 02/21] fix: hold the heap's lock while looking up the segment
 of a closure

ffi_closure_alloc, ffi_closure_free, ffi_data_to_code_pointer and
ffi_tramp_is_present walked the list of segments without the lock, while
other threads may be adding or removing segments: a lookup could miss the
segment, follow a freed record or pick up the executable offset of another
segment.
---
 src/closures.c | 53 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/closures.c b/src/closures.c
index 02cf78f..ab555d2 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -984,6 +984,30 @@ segment_holding_code (mstate m, char* addr)
 
 #endif /* !(defined(_WIN32) || defined(__OS2__)) || defined (__CYGWIN__) || defined(__INTERIX) */
 
+/* If DATA lies in memory we manage, store the corresponding executable
+   address in *CODE and return nonzero; otherwise return zero.  Other threads
+   may be adding or removing segments, so the heap's lock must be held while
+   the list of segments is being looked at.  */
+static int
+data_to_code (void *data, void **code)
+{
+  int found = 0;
+
+  if (!PREACTION (gm))
+    {
+      msegmentptr seg = segment_holding (gm, data);
+
+      if (seg)
+	{
+	  *code = add_segment_exec_offset (data, seg);
+	  found = 1;
+	}
+      POSTACTION (gm);
+    }
+
+  return found;
+}
+
 /* Allocate a chunk of memory with the given size.  Returns a pointer
    to the writable address, and sets *CODE to the executable
    corresponding virtual address.  */
@@ -999,9 +1023,10 @@ ffi_closure_alloc (size_t size, void **code)
 
   if (ptr)
     {
-      msegmentptr seg = segment_holding (gm, ptr);
+      void *exec = ptr;
 
-      *code = FFI_FN (add_segment_exec_offset (ptr, seg));
+      data_to_code (ptr, &exec);
+      *code = FFI_FN (exec);
       if (!ffi_tramp_is_supported ())
         return ptr;
 
@@ -1021,15 +1046,15 @@ ffi_closure_alloc (size_t size, void **code)
 void *
 ffi_data_to_code_pointer (void *data)
 {
-  msegmentptr seg = segment_holding (gm, data);
+  void *code;
   /* We expect closures to be allocated with ffi_closure_alloc(), in
-     which case seg will be non-NULL.  However, some users take on the
-     burden of managing this memory themselves, in which case this
+     which case data is in one of our segments.  However, some users take
+     on the burden of managing this memory themselves, in which case this
      we'll just return data. */
-  if (seg)
+  if (data_to_code (data, &code))
     {
       if (!ffi_tramp_is_supported ())
-        return add_segment_exec_offset (data, seg);
+        return code;
       return ffi_tramp_get_addr (((ffi_closure *) data)->ftramp);
     }
   else
@@ -1044,10 +1069,14 @@ void
 ffi_closure_free (void *ptr)
 {
 #if FFI_CLOSURE_FREE_CODE
-  msegmentptr seg = segment_holding_code (gm, ptr);
+  if (!PREACTION (gm))
+    {
+      msegmentptr seg = segment_holding_code (gm, ptr);
 
-  if (seg)
-    ptr = sub_segment_exec_offset (ptr, seg);
+      if (seg)
+	ptr = sub_segment_exec_offset (ptr, seg);
+      POSTACTION (gm);
+    }
 #endif
   if (ffi_tramp_is_supported ())
     ffi_tramp_free (((ffi_closure *) ptr)->ftramp);
@@ -1058,8 +1087,8 @@ ffi_closure_free (void *ptr)
 int
 ffi_tramp_is_present (void *ptr)
 {
-  msegmentptr seg = segment_holding (gm, ptr);
-  return seg != NULL && ffi_tramp_is_supported();
+  void *code;
+  return data_to_code (ptr, &code) && ffi_tramp_is_supported();
 }
 
 # else /* ! FFI_MMAP_EXEC_WRIT */
-- 
2.43.0


From 134237e8b936e39443ba59a18904ee83495c0a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 03/21] fix: static trampolines: only map a file that holds the
 trampoline code

The path in /proc/PID/maps was read up to the first blank, without a bound,
and whatever file was found under it was mapped and executed, even when
libffi's file had been removed or replaced since it was loaded.  Take the
whole rest of the line, bound it, and compare the file's bytes with the
trampoline table before using it.
---
 src/tramp.c | 47 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/tramp.c b/src/tramp.c
index 8ec0848..ec66345 100644
--- a/src/tramp.c
+++ b/src/tramp.c
@@ -47,6 +47,7 @@
 #include <unistd.h>
 #include <stdlib.h>
 #include <stdint.h>
+#include <string.h>
 #include <fcntl.h>
 #include <pthread.h>
 #include <sys/mman.h>
@@ -201,6 +202,34 @@ static int tramp_table_alloc (void);
 
 #if defined (__linux__) || defined (__CYGWIN__)
 
+/*
+ * Check that the trampoline file really holds the trampoline code table. The
+ * file that is found under libffi's path may not be the one that this process
+ * has mapped, e.g., when libffi has been upgraded in the meantime.
+ */
+static int
+ffi_tramp_file_matches (void)
+{
+  const char *text = tramp_globals.text;
+  char buf[512];
+  size_t done = 0;
+
+  while (done < tramp_globals.map_size)
+    {
+      size_t want = tramp_globals.map_size - done;
+      ssize_t count;
+
+      if (want > sizeof (buf))
+	want = sizeof (buf);
+      count = pread (tramp_globals.fd, buf, want,
+	tramp_globals.offset + (off_t) done);
+      if (count <= 0 || memcmp (buf, text + done, (size_t) count) != 0)
+	return 0;
+      done += (size_t) count;
+    }
+  return 1;
+}
+
 static int
 ffi_tramp_get_libffi (void)
 {
@@ -208,7 +237,8 @@ ffi_tramp_get_libffi (void)
   char file[PATH_MAX], line[PATH_MAX+100], perm[10], dev[10];
   unsigned long start, end, offset, inode;
   uintptr_t addr = (uintptr_t) tramp_globals.text;
-  int nfields, found;
+  int nfields, found, path;
+  size_t len;
 
   snprintf (file, PATH_MAX, "/proc/%d/maps", getpid());
   fp = fopen (file, "r");
@@ -220,12 +250,19 @@ ffi_tramp_get_libffi (void)
     if (fgets (line, sizeof (line), fp) == 0)
       break;
 
-    nfields = sscanf (line, "%lx-%lx %9s %lx %9s %ld %s",
-      &start, &end, perm, &offset, dev, &inode, file);
-    if (nfields != 7)
+    path = 0;
+    nfields = sscanf (line, "%lx-%lx %9s %lx %9s %ld %n",
+      &start, &end, perm, &offset, dev, &inode, &path);
+    if (nfields != 6 || path == 0)
       continue;
 
     if (addr >= start && addr < end) {
+      /* The path is the rest of the line; it may contain spaces. */
+      len = strcspn (line + path, "\n");
+      if (len == 0 || len >= sizeof (file))
+        break;
+      memcpy (file, line + path, len);
+      file[len] = '\0';
       tramp_globals.offset = offset + (addr - start);
       found = 1;
       break;
@@ -244,7 +281,7 @@ ffi_tramp_get_libffi (void)
    * Allocate a trampoline table just to make sure that the trampoline code
    * table can be mapped.
    */
-  if (!tramp_table_alloc ())
+  if (!ffi_tramp_file_matches () || !tramp_table_alloc ())
     {
       close (tramp_globals.fd);
       tramp_globals.fd = -1;
-- 
2.43.0


From ad73f2217ffccee5f1d83aa0777a088660a8178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 04/21] fix: open libffi's own file close-on-exec

The descriptor is kept for the life of the process and leaked into every
program it executes.
---
 src/tramp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tramp.c b/src/tramp.c
index ec66345..5a4dce2 100644
--- a/src/tramp.c
+++ b/src/tramp.c
@@ -273,7 +273,11 @@ ffi_tramp_get_libffi (void)
   if (!found)
     return 0;
 
+#ifdef O_CLOEXEC
+  tramp_globals.fd = open (file, O_RDONLY | O_CLOEXEC);
+#else
   tramp_globals.fd = open (file, O_RDONLY);
+#endif
   if (tramp_globals.fd == -1)
     return 0;
 
-- 
2.43.0


From 21d93a99b75a28602b81e828a9af136500b6d5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 05/21] fix: make temporary executable files close-on-exec
 without mkostemp

Nothing defines HAVE_MKOSTEMP, so the descriptor of a named temporary file
was inherited by every program the process executes.
---
 src/closures.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/closures.c b/src/closures.c
index ab555d2..e144bd1 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -607,6 +607,10 @@ open_temp_exec_file_name (char *name, int flags MAYBE_UNUSED)
   fd = mkostemp (name, flags);
 #else
   fd = mkstemp (name);
+#ifdef FD_CLOEXEC
+  if (fd != -1)
+    fcntl (fd, F_SETFD, FD_CLOEXEC);
+#endif
 #endif
 
   if (fd != -1)
-- 
2.43.0


From 95ec020f7ad7c9bb0248fda7df8de3dec2b03dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 06/21] fix: do not lose a segment's code when its memory
 cannot be unmapped

dlmunmap removed the executable mapping first; when unmapping the writable
one then failed, the heap went on using the segment and handed out closures
whose code address was no longer mapped.
---
 src/closures.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/closures.c b/src/closures.c
index e144bd1..7ea201e 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -959,15 +959,17 @@ dlmunmap (void *start, size_t length)
      Yuck.  */
   msegmentptr seg = segment_holding (gm, start);
   void *code;
+  int ret;
 
-  if (seg && (code = add_segment_exec_offset (start, seg)) != start)
-    {
-      int ret = munmap (code, length);
-      if (ret)
-	return ret;
-    }
+  code = seg ? add_segment_exec_offset (start, seg) : start;
 
-  return munmap (start, length);
+  /* If this fails, the caller goes on using the memory, so its code must
+     still be there.  */
+  ret = munmap (start, length);
+  if (ret == 0 && code != start)
+    munmap (code, length);
+
+  return ret;
 }
 
 #if FFI_CLOSURE_FREE_CODE
-- 
2.43.0


From 9e8c971fc6f23b37959fb9dd9389fb940c91018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 07/21] fix: allocate the space that is mapped from the
 temporary file

When an attempt failed after the space had been written, the file was cut
back but its position was not, so that the next attempt wrote beyond the part
that it then mapped.  The mapping had no storage, and a full disk would show
up as SIGBUS instead of a failed allocation.
---
 src/closures.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/closures.c b/src/closures.c
index 7ea201e..379358e 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -842,7 +842,9 @@ dlmmap_locked (void *start, size_t length, int prot, int flags, off_t offset)
 
   offset = execsize;
 
-  if (allocate_space (execfd, length))
+  /* The file position is past OFFSET if an earlier attempt failed.  */
+  if (lseek (execfd, offset, SEEK_SET) != offset
+      || allocate_space (execfd, length))
     return MFAIL;
 
   flags &= ~(MAP_PRIVATE | MAP_ANONYMOUS);
-- 
2.43.0


From 514056e32ffb81f851c9e32c63c52a183307e842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 08/21] fix: try the next location when the temporary file has
 no room

A location whose file system is full was kept for good, and no closure could
be allocated, although other locations were usable.
---
 src/closures.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/closures.c b/src/closures.c
index 379358e..2531939 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -845,7 +845,14 @@ dlmmap_locked (void *start, size_t length, int prot, int flags, off_t offset)
   /* The file position is past OFFSET if an earlier attempt failed.  */
   if (lseek (execfd, offset, SEEK_SET) != offset
       || allocate_space (execfd, length))
-    return MFAIL;
+    {
+      if (!offset)
+	{
+	  close (execfd);
+	  goto retry_open;
+	}
+      return MFAIL;
+    }
 
   flags &= ~(MAP_PRIVATE | MAP_ANONYMOUS);
   flags |= MAP_SHARED;
-- 
2.43.0


From cc437e90d2ba25f0d4da1b7b5349f28d5f5d7834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:55 +0000
Subject: [PATCH 09/21] fix: dlmalloc: set page_size last when initialising

Threads that use closures for the first time together skip the
initialisation once page_size is set, and could find a granularity of zero
and fail to allocate.
---
 src/dlmalloc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dlmalloc.c b/src/dlmalloc.c
index 17193a0..dc2917b 100644
--- a/src/dlmalloc.c
+++ b/src/dlmalloc.c
@@ -2557,12 +2557,16 @@ static int init_mparams(void) {
       INITIAL_LOCK(&gm->mutex);
       gm->mflags = mparams.default_mflags;
     }
+#if !defined(WIN32) && !defined(__OS2__)
+    mparams.granularity = ((DEFAULT_GRANULARITY != 0)?
+                           DEFAULT_GRANULARITY : malloc_getpagesize);
+#endif
     RELEASE_MAGIC_INIT_LOCK();
 
 #if !defined(WIN32) && !defined(__OS2__)
+    /* Other threads don't come here any more once page_size is set, so
+       everything else has to be in place by then.  */
     mparams.page_size = malloc_getpagesize;
-    mparams.granularity = ((DEFAULT_GRANULARITY != 0)?
-                           DEFAULT_GRANULARITY : mparams.page_size);
 #elif defined (__OS2__)
  /* if low-memory is used, os2munmap() would break
     if it were anything other than 64k */
-- 
2.43.0


From a4d908656d1759329542eb7d3e3ccf61794d7118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 10/21] fix: a rejected structure type stays rejected

initialize_aggregate stored the running size and alignment in the type.
When a later element was invalid the partial size stayed behind, and the
next preparation took the type for one that was already laid out.  Lay
the type out in local variables and store only a complete layout; this
also keeps a laid out type intact while ffi_get_struct_offsets runs.
---
 src/prep_cif.c | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/prep_cif.c b/src/prep_cif.c
index 47c9259..7483f15 100644
--- a/src/prep_cif.c
+++ b/src/prep_cif.c
@@ -38,13 +38,12 @@
 static ffi_status initialize_aggregate(ffi_type *arg, size_t *offsets)
 {
   ffi_type **ptr;
+  size_t size = 0;
+  unsigned short alignment = 0;
 
   if (UNLIKELY(arg == NULL || arg->elements == NULL))
     return FFI_BAD_TYPEDEF;
 
-  arg->size = 0;
-  arg->alignment = 0;
-
   ptr = &(arg->elements[0]);
 
   if (UNLIKELY(ptr == 0))
@@ -59,13 +58,13 @@ static ffi_status initialize_aggregate(ffi_type *arg, size_t *offsets)
       /* Perform a sanity check on the argument type */
       FFI_ASSERT_VALID_TYPE(*ptr);
 
-      arg->size = FFI_ALIGN(arg->size, (*ptr)->alignment);
+      size = FFI_ALIGN(size, (*ptr)->alignment);
       if (offsets)
-	*offsets++ = arg->size;
-      arg->size += (*ptr)->size;
+	*offsets++ = size;
+      size += (*ptr)->size;
 
-      arg->alignment = (arg->alignment > (*ptr)->alignment) ?
-	arg->alignment : (*ptr)->alignment;
+      alignment = (alignment > (*ptr)->alignment) ?
+	alignment : (*ptr)->alignment;
 
       ptr++;
     }
@@ -77,19 +76,23 @@ static ffi_status initialize_aggregate(ffi_type *arg, size_t *offsets)
      struct A { long a; char b; }; struct B { struct A x; char y; };
      should find y at an offset of 2*sizeof(long) and result in a
      total size of 3*sizeof(long).  */
-  arg->size = FFI_ALIGN (arg->size, arg->alignment);
+  size = FFI_ALIGN (size, alignment);
 
   /* On some targets, the ABI defines that structures have an additional
      alignment beyond the "natural" one based on their elements.  */
 #ifdef FFI_AGGREGATE_ALIGNMENT
-  if (FFI_AGGREGATE_ALIGNMENT > arg->alignment)
-    arg->alignment = FFI_AGGREGATE_ALIGNMENT;
+  if (FFI_AGGREGATE_ALIGNMENT > alignment)
+    alignment = FFI_AGGREGATE_ALIGNMENT;
 #endif
 
-  if (arg->size == 0)
+  if (size == 0)
     return FFI_BAD_TYPEDEF;
-  else
-    return FFI_OK;
+
+  /* Only a complete layout is stored: a nonzero size is what marks the
+     type as valid from now on.  */
+  arg->alignment = alignment;
+  arg->size = size;
+  return FFI_OK;
 }
 
 #ifndef __CRIS__
-- 
2.43.0


From 8f4ab67b1f656d29edae91e4f864c4d19939fcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 11/21] fix: let exceptions pass through Microsoft ABI calls
 and closures

On ELF systems exceptions are unwound with .eh_frame, which win64.S did
not emit.  Only Windows, which unwinds with SEH, wants its CFI in
.debug_frame alone.
---
 src/x86/win64.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/win64.S b/src/x86/win64.S
index 58ec6a1..3da97d9 100644
--- a/src/x86/win64.S
+++ b/src/x86/win64.S
@@ -5,7 +5,7 @@
 #include <ffi_cfi.h>
 #include "asmnames.h"
 
-#if defined(HAVE_AS_CFI_PSEUDO_OP)
+#if defined(HAVE_AS_CFI_PSEUDO_OP) && defined(X86_WIN64)
         .cfi_sections   .debug_frame
 #endif
 
-- 
2.43.0


From 6577fde27eb3d4b973159e9479a2a2860e773b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:20 +0000
Subject: [PATCH 12/21] fix: leave the caller's argument vector and values
 alone

ffi_call stored pointers to copies of large structures, which live in its
own frame, in the caller's vector of argument values.  The vector was
useless for a second call and could not be shared between threads.  The
System V path copies every value to registers or the stack anyway; the
Microsoft path now keeps its own vector, and also copies the values it
used to pass by reference without a copy (structures of 3, 5, 6 and 7
bytes, complex numbers, long double).
---
 src/x86/ffi64.c  | 18 ------------------
 src/x86/ffiw64.c | 28 +++++++++++++++-------------
 2 files changed, 15 insertions(+), 31 deletions(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index 1d1b88e..e805998 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -685,24 +685,6 @@ ffi_call_efi64(ffi_cif *cif, void (*fn)(void), void *rvalue, void **avalue);
 void
 ffi_call (ffi_cif *cif, void (*fn)(void), void *rvalue, void **avalue)
 {
-  ffi_type **arg_types = cif->arg_types;
-  int i, nargs = cif->nargs;
-  const int max_reg_struct_size = cif->abi == FFI_GNUW64 ? 8 : 16;
-
-  /* If we have any large structure arguments, make a copy so we are passing
-     by value.  */
-  for (i = 0; i < nargs; i++)
-    {
-      ffi_type *at = arg_types[i];
-      int size = at->size;
-      if (at->type == FFI_TYPE_STRUCT && size > max_reg_struct_size)
-        {
-          char *argcopy = alloca (size);
-          memcpy (argcopy, avalue[i], size);
-          avalue[i] = argcopy;
-        }
-    }
-
 #ifndef __ILP32__
   if (cif->abi == FFI_EFI64 || cif->abi == FFI_GNUW64)
     {
diff --git a/src/x86/ffiw64.c b/src/x86/ffiw64.c
index 2be8b99..ab06482 100644
--- a/src/x86/ffiw64.c
+++ b/src/x86/ffiw64.c
@@ -125,20 +125,22 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
   struct win64_call_frame *frame;
   ffi_type **arg_types = cif->arg_types;
   int nargs = cif->nargs;
+  void **argvalue;
 
   FFI_ASSERT(cif->abi == FFI_GNUW64 || cif->abi == FFI_WIN64);
 
-  /* If we have any large structure arguments, make a copy so we are passing
-     by value.  */
+  /* Arguments that do not fit an 8 byte slot are passed by reference; make
+     copies so that the callee cannot modify the caller's values.  The vector
+     of values belongs to the caller as well, so leave it alone.  */
+  argvalue = alloca (nargs * sizeof (void *));
   for (i = 0; i < nargs; i++)
     {
-      ffi_type *at = arg_types[i];
-      int size = at->size;
-      if (at->type == FFI_TYPE_STRUCT && size > 8)
+      size_t size = arg_types[i]->size;
+      argvalue[i] = avalue[i];
+      if (size != 1 && size != 2 && size != 4 && size != 8)
         {
-          char *argcopy = alloca (size);
-          memcpy (argcopy, avalue[i], size);
-          avalue[i] = argcopy;
+          argvalue[i] = alloca (size);
+          memcpy (argvalue[i], avalue[i], size);
         }
     }
 
@@ -176,19 +178,19 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
       switch (cif->arg_types[i]->size)
 	{
 	case 8:
-	  stack[j] = *(UINT64 *)avalue[i];
+	  stack[j] = *(UINT64 *)argvalue[i];
 	  break;
 	case 4:
-	  stack[j] = *(UINT32 *)avalue[i];
+	  stack[j] = *(UINT32 *)argvalue[i];
 	  break;
 	case 2:
-	  stack[j] = *(UINT16 *)avalue[i];
+	  stack[j] = *(UINT16 *)argvalue[i];
 	  break;
 	case 1:
-	  stack[j] = *(UINT8 *)avalue[i];
+	  stack[j] = *(UINT8 *)argvalue[i];
 	  break;
 	default:
-	  stack[j] = (uintptr_t)avalue[i];
+	  stack[j] = (uintptr_t)argvalue[i];
 	  break;
 	}
     }
-- 
2.43.0


From dbedeb2cccd12ad2949034c3264cc86b182d617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:20 +0000
Subject: [PATCH 13/21] fix: return a structure that holds one long double on
 the x87 stack

Such a structure has class X87 and is returned in st(0), but it was
treated as if it came in rax and rdx.
---
 src/x86/ffi64.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index e805998..b159086 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -473,7 +473,9 @@ ffi_prep_cif_machdep (ffi_cif *cif)
 	{
 	  _Bool sse0 = SSE_CLASS_P (classes[0]);
 
-	  if (rtype_size == 4 && sse0)
+	  if (classes[0] == X86_64_X87_CLASS)
+	    flags = UNIX64_RET_X87;
+	  else if (rtype_size == 4 && sse0)
 	    flags = UNIX64_RET_XMM32;
 	  else if (rtype_size == 8)
 	    flags = sse0 ? UNIX64_RET_XMM64 : UNIX64_RET_INT64;
-- 
2.43.0


From 18693c235afb503e63e276f28f217dd5115bc978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:21 +0000
Subject: [PATCH 14/21] fix: pop a long double result off the x87 stack when it
 is not wanted

Without a result address the value stayed on the x87 register stack, and
after eight such calls the stack overflowed.
---
 src/x86/ffi64.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index b159086..800a770 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -576,11 +576,14 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
   FFI_ASSERT (cif->abi == FFI_UNIX64);
 
   /* If the return value is a struct and we don't have a return value
-     address then we need to make one.  Otherwise we can ignore it.  */
+     address then we need to make one.  The same goes for a value that
+     has to be popped off the x87 stack.  Otherwise we can ignore it.  */
   flags = cif->flags;
   if (rvalue == NULL)
     {
-      if (flags & UNIX64_FLAG_RET_IN_MEM)
+      if ((flags & UNIX64_FLAG_RET_IN_MEM)
+	  || (flags & 0xff) == UNIX64_RET_X87
+	  || (flags & 0xff) == UNIX64_RET_X87_2)
 	rvalue = alloca (cif->rtype->size);
       else
 	flags = UNIX64_RET_VOID;
-- 
2.43.0


From 683734cb8dd1133d93f65da443f6b26432b37d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 15/21] fix: align the buffer for an unwanted structure result

The Microsoft path put it behind the call frame, whose end is only 8 byte
aligned; the callee may need 16.
---
 src/x86/ffiw64.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/x86/ffiw64.c b/src/x86/ffiw64.c
index ab06482..740e196 100644
--- a/src/x86/ffiw64.c
+++ b/src/x86/ffiw64.c
@@ -121,7 +121,6 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
 {
   int i, j, n, flags;
   UINT64 *stack;
-  size_t rsize;
   struct win64_call_frame *frame;
   ffi_type **arg_types = cif->arg_types;
   int nargs = cif->nargs;
@@ -145,22 +144,19 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
     }
 
   flags = cif->flags;
-  rsize = 0;
 
   /* If we have no return value for a structure, we need to create one.
      Otherwise we can ignore the return type entirely.  */
   if (rvalue == NULL)
     {
       if (flags == FFI_TYPE_STRUCT)
-	rsize = cif->rtype->size;
+	rvalue = alloca (cif->rtype->size);
       else
 	flags = FFI_TYPE_VOID;
     }
 
-  stack = alloca(cif->bytes + sizeof(struct win64_call_frame) + rsize);
+  stack = alloca(cif->bytes + sizeof(struct win64_call_frame));
   frame = (struct win64_call_frame *)((char *)stack + cif->bytes);
-  if (rsize)
-    rvalue = frame + 1;
 
   frame->fn = (uintptr_t)fn;
   frame->flags = flags;
-- 
2.43.0


From 660449ce70041badf666726f47b1a4ede159beb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:18 +0000
Subject: [PATCH 16/21] fix: x86-32 thiscall and fastcall closures remove what
 was on the stack

A 64-bit or structure argument makes the following integers go on the
stack; that was recorded by raising the count of used registers, which
the closure then took for arguments it had no stack space to remove for.
---
 src/x86/ffi.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index 6862533..6bfe455 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -451,7 +451,7 @@ int FFI_HIDDEN FFI_DECLARE_FASTCALL
 ffi_closure_inner (struct closure_frame *frame, char *stack)
 {
   ffi_cif *cif = frame->cif;
-  int cabi, i, n, flags, dir, narg_reg;
+  int cabi, i, n, flags, dir, narg_reg, nreg_used;
   const struct abi_params *pabi;
   ffi_type **arg_types;
   char *argp;
@@ -460,7 +460,7 @@ ffi_closure_inner (struct closure_frame *frame, char *stack)
 
   cabi = cif->abi;
   flags = cif->flags;
-  narg_reg = 0;
+  narg_reg = nreg_used = 0;
   rvalue = frame->rettemp;
   pabi = &abi_params[cabi];
   dir = pabi->dir;
@@ -472,7 +472,7 @@ ffi_closure_inner (struct closure_frame *frame, char *stack)
       if (pabi->nregs > 0)
 	{
 	  rvalue = (void *)frame->regs[pabi->regs[0]];
-	  narg_reg = 1;
+	  narg_reg = nreg_used = 1;
 	  frame->rettemp[0] = (unsigned)rvalue;
 	  break;
 	}
@@ -498,7 +498,10 @@ ffi_closure_inner (struct closure_frame *frame, char *stack)
       if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT)
 	{
 	  if (t != FFI_TYPE_FLOAT && narg_reg < pabi->nregs)
-	    valp = &frame->regs[pabi->regs[narg_reg++]];
+	    {
+	      valp = &frame->regs[pabi->regs[narg_reg++]];
+	      nreg_used++;
+	    }
 	  else if (dir < 0)
 	    {
 	      argp -= 4;
@@ -554,7 +557,7 @@ ffi_closure_inner (struct closure_frame *frame, char *stack)
       return flags | (cif->bytes << X86_RET_POP_SHIFT);
     case FFI_THISCALL:
     case FFI_FASTCALL:
-      return flags | ((cif->bytes - (narg_reg * FFI_SIZEOF_ARG))
+      return flags | ((cif->bytes - (nreg_used * FFI_SIZEOF_ARG))
           << X86_RET_POP_SHIFT);
     default:
       return flags;
-- 
2.43.0


From f327a18b8c3c52ee016583fa9be9eb26f3d144b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:18 +0000
Subject: [PATCH 17/21] fix: x86-32 thiscall and fastcall Go closures remove
 their stack arguments

---
 src/x86/sysv.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/sysv.S b/src/x86/sysv.S
index c7a0fb5..b44212e 100644
--- a/src/x86/sysv.S
+++ b/src/x86/sysv.S
@@ -307,7 +307,7 @@ L(UW7):
 	movl	%edx, closure_CF+28(%esp)
 	movl	%ecx, closure_CF+32(%esp)
 	movl	%eax, closure_CF+36(%esp)	/* closure is user_data */
-	jmp	L(do_closure_i386)
+	jmp	L(do_closure_STDCALL)
 L(UW8):
 	# cfi_endproc
 ENDF(C(ffi_go_closure_EAX))
-- 
2.43.0


From 01df60fbc0d621f2c802bc7e8e26ff9a59c6158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:59 +0000
Subject: [PATCH 18/21] fix: x86-32 ffi_raw_call keeps within its stack block
 and the caller's arguments

The block was aligned by clearing bit 4 of its address, which can move it
below the memory reserved; the arguments left after those in registers
were looked for at four times their offset; and as many bytes were copied
as the aligned stack holds, reading past the end of the raw array.
---
 src/x86/ffi.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index 6bfe455..0c95309 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -766,7 +766,7 @@ ffi_raw_call(ffi_cif *cif, void (*fn)(void), void *rvalue, ffi_raw *avalue)
 
   bytes = STACK_ALIGN (cif->bytes);
   argp = stack =
-      (void *)((uintptr_t)alloca(bytes + sizeof(*frame) + rsize + 15) & ~16);
+      (void *)FFI_ALIGN (alloca(bytes + sizeof(*frame) + rsize + 15), 16);
   frame = (struct call_frame *)(stack + bytes);
   if (rsize)
     rvalue = frame + 1;
@@ -775,6 +775,9 @@ ffi_raw_call(ffi_cif *cif, void (*fn)(void), void *rvalue, ffi_raw *avalue)
   frame->flags = flags;
   frame->rvalue = rvalue;
 
+  /* From here on, the number of bytes still to be copied.  */
+  bytes = cif->bytes;
+
   narg_reg = 0;
   switch (flags)
     {
@@ -784,6 +787,7 @@ ffi_raw_call(ffi_cif *cif, void (*fn)(void), void *rvalue, ffi_raw *avalue)
 	{
 	  frame->regs[pabi->regs[0]] = (unsigned)rvalue;
 	  narg_reg = 1;
+	  bytes -= sizeof(void *);
 	  break;
 	}
       /* fallthru */
@@ -813,7 +817,7 @@ ffi_raw_call(ffi_cif *cif, void (*fn)(void), void *rvalue, ffi_raw *avalue)
 	  z = FFI_ALIGN (z, FFI_SIZEOF_ARG);
 	  argp += z;
 	}
-      avalue += z;
+      avalue = (ffi_raw *)((char *)avalue + z);
       bytes -= z;
     }
   if (i < n)
-- 
2.43.0


From 5851f24aaae59e667a4c9e9128aad042812f108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:05 +0000
Subject: [PATCH 19/21] fix: x86-32 raw closures work through static
 trampolines

ffi_prep_raw_closure_loc wrote a dynamic trampoline although the code
address given out by ffi_closure_alloc was that of a static one, whose
parameters were never set.
---
 src/x86/ffi.c  | 20 ++++++++++++++++++++
 src/x86/sysv.S | 24 ++++++++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index 0c95309..2edec49 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -678,6 +678,10 @@ ffi_prep_go_closure (ffi_go_closure* closure, ffi_cif* cif,
 
 void FFI_HIDDEN ffi_closure_raw_SYSV(void);
 void FFI_HIDDEN ffi_closure_raw_THISCALL(void);
+#if defined(FFI_EXEC_STATIC_TRAMP)
+void FFI_HIDDEN ffi_closure_raw_SYSV_alt(void);
+void FFI_HIDDEN ffi_closure_raw_THISCALL_alt(void);
+#endif
 
 ffi_status
 ffi_prep_raw_closure_loc (ffi_raw_closure *closure,
@@ -714,6 +718,19 @@ ffi_prep_raw_closure_loc (ffi_raw_closure *closure,
       return FFI_BAD_ABI;
     }
 
+#if defined(FFI_EXEC_STATIC_TRAMP)
+  if (ffi_tramp_is_present(closure))
+    {
+      /* Initialize the static trampoline's parameters. */
+      if (dest == ffi_closure_raw_SYSV)
+        dest = ffi_closure_raw_SYSV_alt;
+      else
+        dest = ffi_closure_raw_THISCALL_alt;
+      ffi_tramp_set_parms (((ffi_closure *) closure)->ftramp, dest, closure);
+      goto out;
+    }
+#endif
+
   /* movl imm, %eax.  */
   tramp[0] = 0xb8;
   *(void **)(tramp + 1) = codeloc;
@@ -722,6 +739,9 @@ ffi_prep_raw_closure_loc (ffi_raw_closure *closure,
   tramp[5] = 0xe9;
   *(unsigned *)(tramp + 6) = (unsigned)dest - ((unsigned)codeloc + 10);
 
+#if defined(FFI_EXEC_STATIC_TRAMP)
+out:
+#endif
   closure->cif = cif;
   closure->fun = fun;
   closure->user_data = user_data;
diff --git a/src/x86/sysv.S b/src/x86/sysv.S
index b44212e..06e27d4 100644
--- a/src/x86/sysv.S
+++ b/src/x86/sysv.S
@@ -663,6 +663,30 @@ ENDF(C(trampoline_code_table))
 
 #if !FFI_NO_RAW_API
 
+#if defined(FFI_EXEC_STATIC_TRAMP)
+	.balign	16
+	.globl	C(ffi_closure_raw_SYSV_alt)
+	FFI_HIDDEN(C(ffi_closure_raw_SYSV_alt))
+C(ffi_closure_raw_SYSV_alt):
+	/* See the comments above trampoline_code_table. */
+	_CET_ENDBR
+	movl	4(%esp), %eax			/* Load closure in eax */
+	add	$8, %esp			/* Restore the stack */
+	jmp	C(ffi_closure_raw_SYSV)
+ENDF(C(ffi_closure_raw_SYSV_alt))
+
+	.balign	16
+	.globl	C(ffi_closure_raw_THISCALL_alt)
+	FFI_HIDDEN(C(ffi_closure_raw_THISCALL_alt))
+C(ffi_closure_raw_THISCALL_alt):
+	/* See the comments above trampoline_code_table. */
+	_CET_ENDBR
+	movl	4(%esp), %eax			/* Load closure in eax */
+	add	$8, %esp			/* Restore the stack */
+	jmp	C(ffi_closure_raw_THISCALL)
+ENDF(C(ffi_closure_raw_THISCALL_alt))
+#endif /* FFI_EXEC_STATIC_TRAMP */
+
 #define raw_closure_S_FS	(16+16+12)
 
 	.balign	16
-- 
2.43.0


From 6cfd5444e9e18ccb7ccbd4a0658470b252dae94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:22 +0000
Subject: [PATCH 20/21] fix: x86-32 ffi_raw_call passes integers after a 64-bit
 thiscall argument on the stack

ffi_call_int stops using registers once a 64-bit integer or structure
has been passed to a thiscall or fastcall function (issue 434), and so
do the closures and the compilers; ffi_raw_call did not.
---
 src/x86/ffi.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index 2edec49..aa90337 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -833,6 +833,13 @@ ffi_raw_call(ffi_cif *cif, void (*fn)(void), void *rvalue, ffi_raw *avalue)
 	}
       else
 	{
+	  /* As in ffi_call_int, whatever follows goes on the stack.  */
+	  if ((cabi == FFI_THISCALL || cabi == FFI_FASTCALL)
+	      && (t == FFI_TYPE_SINT64
+		  || t == FFI_TYPE_UINT64
+		  || t == FFI_TYPE_STRUCT))
+	    narg_reg = 2;
+
 	  memcpy (argp, avalue, z);
 	  z = FFI_ALIGN (z, FFI_SIZEOF_ARG);
 	  argp += z;
-- 
2.43.0


From 75dfc8c160bf7d84ad768e9d035a7c2960e17a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:51 +0000
Subject: [PATCH 21/21] fix: x86-32 raw thiscall closures remove their stack
 arguments

A thiscall function removes its arguments from the stack; the raw closure
entry code only removed the copy of %ecx it had pushed itself.
---
 src/x86/sysv.S | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/x86/sysv.S b/src/x86/sysv.S
index 06e27d4..392b58d 100644
--- a/src/x86/sysv.S
+++ b/src/x86/sysv.S
@@ -830,6 +830,12 @@ L(UW46):
 	movl	%ebx, (%esp)
 	call	*FFI_TRAMPOLINE_SIZE+4(%eax)		/* call cl->fun */
 
+	/* All of the arguments are to be removed, with %ecx among them.  */
+	movl	16(%ebx), %eax				/* load cif->bytes */
+	cmpl	$4, %eax
+	jae	1f
+	movl	$4, %eax
+1:	movl	%eax, raw_closure_T_FS-8(%esp)
 	movl	20(%ebx), %eax				/* load cif->flags */
 	andl	$X86_RET_TYPE_MASK, %eax
 #ifdef __PIC__
@@ -875,20 +881,13 @@ E(L(load_table5), X86_RET_INT32)
 	nop
 	/* fallthru */
 E(L(load_table5), X86_RET_VOID)
-L(e5):
-	addl	$raw_closure_T_FS, %esp
-L(UW48):
-	# cfi_adjust_cfa_offset(-raw_closure_T_FS)
-	/* Remove the extra %ecx argument we pushed.  */
-	ret	$4
-L(UW49):
-	# cfi_adjust_cfa_offset(raw_closure_T_FS)
+	jmp	L(e5)
 E(L(load_table5), X86_RET_STRUCTPOP)
 	addl	$raw_closure_T_FS, %esp
-L(UW50):
+L(UW48):
 	# cfi_adjust_cfa_offset(-raw_closure_T_FS)
 	ret	$8
-L(UW51):
+L(UW49):
 	# cfi_adjust_cfa_offset(raw_closure_T_FS)
 E(L(load_table5), X86_RET_STRUCTARG)
 	jmp	L(e5)
@@ -905,6 +904,19 @@ E(L(load_table5), X86_RET_UNUSED14)
 E(L(load_table5), X86_RET_UNUSED15)
 	ud2
 
+L(e5):
+	movl	raw_closure_T_FS-8(%esp), %ecx
+	addl	$raw_closure_T_FS, %esp
+L(UW50):
+	# cfi_adjust_cfa_offset(-raw_closure_T_FS)
+	/* Move the return address over the last of the arguments.  */
+	leal	(%esp, %ecx), %ecx
+	popl	(%ecx)
+	movl	%ecx, %esp
+	ret
+L(UW51):
+	# cfi_adjust_cfa_offset(raw_closure_T_FS)
+
 L(UW52):
 	# cfi_endproc
 ENDF(C(ffi_closure_raw_THISCALL))
-- 
2.43.0

