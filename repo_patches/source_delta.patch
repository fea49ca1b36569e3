From 2ae71ff44d7742b1d6573231906f712ce8d416f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 01/67] fix: read the right data when only some volumes are
 reconstructed

The offset in the packed file was lost for a file starting in the wanted
volume, for volumes after skipped ones with a wildcard, and for a file with
the same name in the next set. The CRC of the last volume was always reported
as wrong.
---
 rescene/main.py | 54 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index ecb05fd..419cb1e 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1204,6 +1204,7 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 	rar_name = ""
 	ofile = ""
 	source_name = None
+	source_start = 0 # offset of the source file at which we started reading
 	rarfs = None # RAR Volume that is being reconstructed
 	srcfs = None # File handle for the stored files
 	rebuild_recovery = False
@@ -1213,9 +1214,9 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 		RarArguments.mt_settings = rar_mt
 	
 	skip_volume = False # helps to reconstruct a single volume
-	skip_offset = 0
+	packed_name = None  # archived file of the last file block
+	packed_offset = 0   # amount of data in its blocks until now
 	partial_reconstruction = srr_part != "" and srr_part is not None
-	partial_set = False
 	
 	global temp_dir
 	temp_dir = tmp_dir
@@ -1259,7 +1260,6 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 				if (srr_part.endswith("*") and
 				    block.file_name.startswith(srr_part[:-1])):
 					skip_volume = False
-					partial_set = True
 
 			# We need to create a RAR file for each SRR block.
 			# Get the stored name and create it.
@@ -1292,15 +1292,19 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 				rarfs.write(block.block_bytes())
 				# TODO: !!! not fully copied?
 		elif block.rawtype == BlockType.RarPackedFile:
+			# keep track of the offset in the packed file
+			if (packed_name != block.file_name or
+				(not block.flags & block.SPLIT_BEFORE and
+				 packed_offset >= block.unpacked_size)):
+				# other file, or the next set has a file with the same name
+				packed_name = block.file_name
+				packed_offset = 0
+				source_name = None
+			offset = packed_offset
+			packed_offset += block.packed_size
+
 			if skip_volume:
-				# keep track of offsets in the packed file
-				if source_name != block.file_name:
-					skip_offset = block.packed_size
-				else:
-					skip_offset += block.packed_size
-				
-				source_name = block.file_name
-				running_crc = 0
+				source_name = None # open and seek for the next wanted volume
 				continue
 
 			# This is the main RAR block and treat it differently.
@@ -1315,13 +1319,12 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 #			if block.packed_size > 0:
 			# Make sure we have the correct extracted file open. 
 			# If not, attempt to locate and open it.
-			if (source_name != block.file_name
-				or (partial_reconstruction and not partial_set)
-				or (partial_set and source_name != block.file_name)):
+			if source_name != block.file_name:
 				try: srcfs.close()
 				except: pass
 				source_name = block.file_name
 				running_crc = 0
+				source_start = offset
 				try:
 					# block is a directory: make it not crash
 					if block.flags & block.DIRECTORY == block.DIRECTORY:
@@ -1352,9 +1355,15 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 						raise
 			assert srcfs
 			
-			# make sure the offset is correct
-			if partial_reconstruction and not partial_set:
-				srcfs.seek(skip_offset)
+			# make sure the offset is correct when volumes have been skipped
+			if source_start:
+				if (not block.flags & block.SPLIT_AFTER and
+					not skip_rar_crc and not block.is_compressed()):
+					# CRC check of the whole file: include the skipped data
+					srcfs.seek(0)
+					running_crc = _crc_of_data(srcfs, offset)
+				else:
+					srcfs.seek(offset)
 			
 			# then grab the correct amount of data from the extracted file
 			running_crc = _repack(block, rarfs, in_folder, srcfs, running_crc, 
@@ -1505,6 +1514,17 @@ def _auto_locate_renamed(name, size, in_folder):
 				return f
 	return ""
 		
+def _crc_of_data(srcfs, amount):
+	"""CRC of the next amount of bytes from the file."""
+	crc = 0
+	while amount > 0:
+		data = srcfs.read(min(amount, 0x10000))
+		if not data:
+			break
+		amount -= len(data)
+		crc = zlib.crc32(data, crc)
+	return crc
+
 def _repack(block, rarfs, in_folder, srcfs, running_crc, skip_rar_crc):
 	"""
 	Adds a file to the RAR archive.
-- 
2.43.0


From 4ce49cf677af5bf72b67047330a76b2f22aad6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 02/67] fix: don't store paths that climb out of the input
 folder

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 419cb1e..901f2bd 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1600,7 +1600,7 @@ def _store(sfile, stream, save_paths, in_folder):
 			else:
 				raise  # if this ever throws another valid error here
 			
-		if file_name[:2] == b"..":
+		if file_name.split(os.sep)[0] == os.pardir:
 			# sfile and in_folder don't match
 			# (long/short Windows path or totally different locations)
 			# don't store a path for this file!
-- 
2.43.0


From 35fc08d3ebb92d6ac6157872080a60f1e9010692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 03/67] fix: srr creation failure removes the temporary file,
 not an existing SRR

---
 rescene/srr.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index f759ef6..4f42840 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -363,8 +363,8 @@ def create_srr(options, infolder, infiles, working_dir):
 # 	print("infiles: %s" % infiles, file=sys.stderr)
 # 	print("infolder: %s" % infolder, file=sys.stderr)
 # 	print("store files: %s" % store_files, file=sys.stderr)
+	tmp_srr_name = create_temp_file_name(srr_name)
 	try:
-		tmp_srr_name = create_temp_file_name(srr_name)
 		success = rescene.create_srr(srr_name, infiles, infolder,
 	                                 store_files, save_paths,
 	                                 options.allow_compressed,
@@ -385,16 +385,18 @@ def create_srr(options, infolder, infiles, working_dir):
 		# EmptySfv: can't create a useful file in this case
 		# FileNotFound: Linux file systems are case sensitive
 
-		# make sure there is no broken SRR file/temporary file left
-		try:
-			os.unlink(srr_name)
-		except:
-			pass
 		mthread.done = True
 		mthread.join()
 		print(err, file=sys.stderr)
 		print("SRR creation failed. Aborting.", file=sys.stderr)
 		return 1
+	finally:
+		# make sure there is no temporary file with a broken SRR left
+		# an SRR file that existed before is not touched
+		try:
+			os.unlink(tmp_srr_name)
+		except OSError:
+			pass
 
 def main(argv=None):
 	global parser
-- 
2.43.0


From ea3219fd96c5b45d10b9f992cf44344f12648000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 04/67] fix: keep the existing file when replacing it fails

---
 rescene/utility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index a3ee11c..f330a4a 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -481,7 +481,8 @@ def replace_result(src, dest):
 	# (.srr question for replacement is false)
 	if os.path.isfile(src):
 		# delete previous file if it exists: user allowed to overwrite it
-		if os.path.isfile(dest):
+		# (elsewhere the rename replaces it without losing it on failure)
+		if os.name == "nt" and os.path.isfile(dest):
 			try:
 				os.unlink(dest)
 			except OSError as delete_error:
-- 
2.43.0


From cf7e39583e34cefc4a53c8dc0fbefe96f03f65a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 05/67] fix: replace an edited SRR in one step and clean up the
 temp file on errors

---
 rescene/main.py    | 27 ++++++++++++++++-----------
 rescene/rar.py     | 24 ++++++++++++++++--------
 rescene/utility.py | 10 ++++++++++
 3 files changed, 42 insertions(+), 19 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 901f2bd..ce70b1d 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -58,7 +58,7 @@ from rescene.utility import parse_sfv_file, parse_sfv_data
 from rescene.utility import filter_sfv_duplicates
 from rescene.utility import basestring, fsunicode
 from rescene.utility import decodetext, encodeerrors
-from rescene.utility import capitalized_fn
+from rescene.utility import capitalized_fn, replace_file
 from rescene.osohash import osohash_from
 from rescene.utility import FileType
 
@@ -325,11 +325,6 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 			else: #TODO: make it nicer
 				for f in store_files:
 					_store_fh(f, tmpfile)	
-	except:
-		tmpfile.close()
-		os.unlink(tmpname)
-		raise
-	else:
 		tmpfile.close()
 #		if not location:
 #			# Bad SRR file or RAR file given.
@@ -337,8 +332,19 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 #			raise NotSrrFile("No SrrRarFile blocks detected. -> Not SRR. "
 #							 "Zero files added.")
 		# original srr file is replaced by the temp file
-		os.remove(srr_file)
-		os.rename(tmpname, srr_file)
+		replace_file(tmpname, srr_file)
+	except:
+		_discard_temp_file(tmpfile, tmpname)
+		raise
+
+def _discard_temp_file(tmpfile, tmpname):
+	"""Cleans up after failing to write a new version of an SRR file."""
+	try:
+		tmpfile.close()
+	except EnvironmentError:
+		pass  # e.g. the data left to write doesn't fit on the disk
+	finally:
+		os.unlink(tmpname)
 
 def remove_stored_files(srr_file, store_files):
 	"""Remove files stored inside a SRR file.
@@ -368,11 +374,10 @@ def remove_stored_files(srr_file, store_files):
 			else: # TODO: write better tests here!!
 				tmpfile.write(block.block_bytes())
 		tmpfile.close()
-		os.remove(srr_file)
-		os.rename(tmpname, srr_file)
+		replace_file(tmpname, srr_file)
 	except BaseException as ex:
 		print(ex)
-		os.unlink(tmpname)
+		_discard_temp_file(tmpfile, tmpname)
 		raise
 
 def rename_stored_file(srr_file, stored_name, new_name):
diff --git a/rescene/rar.py b/rescene/rar.py
index e4136b2..daa960b 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -669,15 +669,23 @@ class SrrStoredFileBlock(_SrrFileNameBlock):
 		                                  dir=os.path.dirname(self.fname))
 		tmpfile = os.fdopen(tmpfd, "wb")
 		
-		with open(self.fname, "rb") as f:
-			tmpfile.write(f.read(self.block_position)) # previous block data
-			tmpfile.write(self.block_bytes()) # new block header
-			f.seek(old_file_offset) # go to beginning stored file
-			tmpfile.write(f.read()) # read all data until EOF
+		try:
+			with open(self.fname, "rb") as f:
+				tmpfile.write(f.read(self.block_position)) # previous block data
+				tmpfile.write(self.block_bytes()) # new block header
+				f.seek(old_file_offset) # go to beginning stored file
+				tmpfile.write(f.read()) # read all data until EOF
 			
-		tmpfile.close() 
-		os.remove(self.fname)
-		os.rename(tmpname, self.fname)
+			tmpfile.close() 
+			utility.replace_file(tmpname, self.fname)
+		except:
+			try:
+				tmpfile.close()
+			except EnvironmentError:
+				pass # e.g. the data left to write doesn't fit on the disk
+			finally:
+				os.unlink(tmpname)
+			raise
 
 	def explain(self):
 		out = super(SrrStoredFileBlock, self).explain()
diff --git a/rescene/utility.py b/rescene/utility.py
index f330a4a..109cedb 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -515,6 +515,16 @@ def replace_result(src, dest):
 			os.unlink(src)
 			raise
 
+def replace_file(src, dest):
+	"""Moves src over the existing file dest in one step:
+	dest is never missing and not touched when this fails."""
+	if hasattr(os, "replace"):  # Python 3.3+
+		os.replace(src, dest)
+	else:
+		if os.name == "nt":
+			os.remove(dest)
+		os.rename(src, dest)
+
 def calculate_crc32(file_name):
 	"""Calculates crc32 for a given file and show a spinner."""
 	crc = 0
-- 
2.43.0


From 8a823c8596a64f8871e904644afcd91dbb94b483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 06/67] fix: follow volumes with upper case extensions and use
 the RAR name on disk for the hash

---
 rescene/main.py      |  7 ++++---
 rescene/rarstream.py |  3 ++-
 rescene/utility.py   | 22 +++++++++++++++++-----
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index ce70b1d..2a8b739 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -58,7 +58,7 @@ from rescene.utility import parse_sfv_file, parse_sfv_data
 from rescene.utility import filter_sfv_duplicates
 from rescene.utility import basestring, fsunicode
 from rescene.utility import decodetext, encodeerrors
-from rescene.utility import capitalized_fn, replace_file
+from rescene.utility import capitalized_fn, exact_fn, replace_file
 from rescene.osohash import osohash_from
 from rescene.utility import FileType
 
@@ -559,7 +559,7 @@ def create_srr(srr_name, infiles, in_folder="",
 							           "compression method: %s" % rarfile)
 					else:
 						# store first RAR where we encounter the stored file
-						oso_dict.setdefault(block.os_file_name(), rarfile)
+						oso_dict.setdefault(block.os_file_name(), rfexact)
 				elif _is_recovery(block):
 					_fire(MsgCode.RBLOCK, message="RAR Recovery Block",
 						  packed_size=block.packed_size,
@@ -959,9 +959,10 @@ def _handle_rar(rfile, filelist=None, read_retries=7):
 			
 	next_file = filename(rfile)
 	while exists(next_file):
-		# TODO: fails on mixed capitals on Linux?
 		yield next_file
 		next_file = filename(next_archive(next_file, is_old_style_naming))
+		if not filelist: # mixed capitals on Linux
+			next_file = exact_fn(next_file)
 		
 def info(srr_file):
 	"""Returns a dictionary with the following keys:
diff --git a/rescene/rarstream.py b/rescene/rarstream.py
index 0d8611b..c5df707 100644
--- a/rescene/rarstream.py
+++ b/rescene/rarstream.py
@@ -79,7 +79,8 @@ class RarStream(io.IOBase):
 		rar_file = first_rar
 		while os.path.isfile(rar_file):
 			is_old = self._process(rar_file, packed_file_name, compressed)
-			rar_file = utility.next_archive(rar_file, is_old)
+			rar_file = utility.exact_fn(
+				utility.next_archive(rar_file, is_old))
 
 		try:
 			# choose the first archive with the rar_file to start with
diff --git a/rescene/utility.py b/rescene/utility.py
index 109cedb..9fa3e26 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -555,11 +555,13 @@ def capitalized_fn(afile):
 	# on Linux it could not when the capitals don't match (file name from sfv)
 	inputfn = os.path.basename(afile)
 	inputdir = os.path.dirname(afile) or os.curdir
-	for cfile in os.listdir(inputdir):
-		if (cfile.lower() == inputfn.lower() and
-		    os.path.isfile(os.path.join(inputdir, cfile))):
-			exact = os.path.join(inputdir, cfile)
-			break
+	names = os.listdir(inputdir)
+	if inputfn not in names:
+		for cfile in names:
+			if (cfile.lower() == inputfn.lower() and
+			    os.path.isfile(os.path.join(inputdir, cfile))):
+				exact = os.path.join(inputdir, cfile)
+				break
 
 	# 2) use proper capitalization on both OSes
 	# - choose the one with capitals
@@ -576,6 +578,16 @@ def capitalized_fn(afile):
 
 	return exact, capitals
 
+def exact_fn(afile):
+	"""Returns the name of the file as it is on disk: other capitals are
+	accepted when there is no such file. (sets with .RAR, .R00,...)"""
+	if not os.path.isfile(afile):
+		try:
+			return capitalized_fn(afile)[0]
+		except OSError:
+			pass  # no such folder
+	return afile
+
 ###############################################################################
 
 def diff_lists(one, two):
-- 
2.43.0


From b0ccc4d1881548af5c0649fa91818b81d305c79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 07/67] fix: recovery block without volume and detail dump of a
 salt

---
 rescene/rar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index daa960b..140f576 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1098,7 +1098,8 @@ class RarPackedFileBlock(RarBlock): # 0x74
 			out += "+HIGH_UNP_SIZE: %i\n" % self.high_unpack_size
 		out += "+FILE_NAME: %s\n" % self.file_name
 		if self.flags & self.SALT:
-			out += "+SALT: %X\n" % self.salt
+			out += "+SALT: %s\n" % "".join(
+				"%02X" % x for x in bytearray(self.salt))
 		if self.flags & self.EXT_TIME:
 			out += "+modification time: %s\n" % self.ftime(self.mtime)
 			out += "+creation time: %s\n" % self.ftime(self.ctime)
@@ -1436,7 +1437,7 @@ class RarReader(object):
 				self._readmode = self.RAR
 			elif block_type == BlockType.SrrHeader: # 0x69
 				self._readmode = self.SRR
-				self.recovery_records_removed = True # init to be sure
+				self.recovery_blocks_removed = True # init to be sure
 			elif enable_sfx: # SFX ?
 				# TODO: make it resceneable
 				# search for RAR marker block offset
-- 
2.43.0


From f708cab7eff34fac5c2ddb7d87cf169256846e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 08/67] fix: srs: clean up partial results and keep existing
 files when failing

---
 resample/srs.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/resample/srs.py b/resample/srs.py
index a43d0b7..cbb8941 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -225,6 +225,7 @@ def main(argv=None, no_exit=False):
 		(options.parent_directory and options.srs_parent_directory)):
 		pexit(1, "Make up your mind with the d's...\n")
 
+	temp_files = []  # partial results to clean up
 	try:
 		ftype_arg0 = ""
 
@@ -362,6 +363,7 @@ def main(argv=None, no_exit=False):
 				return pexit(0, "\nOperation aborted.\n", False)
 
 			srs_name_tmp = create_temp_file_name(srs_name)
+			temp_files.append(srs_name_tmp)
 
 			sample.create_srs(tracks, sample_file_data, sample_file,
 			                  srs_name_tmp, options.big_file)
@@ -511,6 +513,7 @@ def main(argv=None, no_exit=False):
 			
 			# 6) Recreate the sample
 			out_file = create_temp_file_name(result_file)
+			temp_files.append(out_file)
 			sfile = sample.rebuild_sample(srs_data, tracks, attachments,
 										  srs, out_file)
 			if sfile and sfile.crc32 == srs_data.crc32:
@@ -528,6 +531,7 @@ def main(argv=None, no_exit=False):
 					if v.out_file:
 						os.unlink(v.out_file)
 					v.out_file = create_temp_file_name(result_file)
+					temp_files.append(v.out_file)
 					v.sfile = sample.rebuild_sample(
 						srs_data, v.tracks, v.attachments, srs, v.out_file)
 					return v.sfile.crc32 == srs_data.crc32
@@ -604,23 +608,20 @@ def main(argv=None, no_exit=False):
 							print("No replacing of source file for music.")
 							print("The .tmp file will be kept:")
 							print(os.path.basename(out_file))
+							temp_files.remove(out_file)
 						else:
 							# only keep broken file if source isn't overwritten
 							replace_result(out_file, result_file)
 				else:
 					# delete reconstruction failure
-					if not is_music:
-						replace_result(out_file, result_file)
-						os.unlink(result_file)
-					elif is_music:
+					# a file that already existed is not replaced by it
+					os.unlink(out_file)
+					if is_music:
 						m = os.path.normpath(os.path.realpath(movie))
 						r = os.path.normpath(os.path.realpath(result_file))
 						if m == r:
 							# always keep original track on retag failure!
 							print("Music track not deleted!")
-						else:
-							replace_result(out_file, result_file)
-							os.unlink(result_file)
 
 				msg = "\nRebuild failed for sample: %s\n" % srs_data.name
 				pexit(5, msg, False)
@@ -650,7 +651,7 @@ def main(argv=None, no_exit=False):
 		if fault.endswith("Aborting"):
 			pexit(2, "Corruption detected: %s\n" % fault)
 		else:
-			exit(2, "Corruption detected: %s. Aborting.\n" % fault)
+			pexit(2, "Corruption detected: %s. Aborting.\n" % fault)
 	except fpcalc.ExecutableNotFound as err:
 		pexit(3, str(err))
 	except AttributeError as err:
@@ -670,6 +671,10 @@ def main(argv=None, no_exit=False):
 	except Exception as err:
 		traceback.print_exc()
 		pexit(99, "Unexpected Error:\n%s\n" % err)
+	finally:
+		for temp_file in temp_files:
+			if os.path.isfile(temp_file):
+				os.unlink(temp_file)
 
 if __name__ == "__main__":
 	if "--profile" in sys.argv:
-- 
2.43.0


From f98f2e97ab22b27858e57d64f82df343f2f9688d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 09/67] fix: srs: don't write outside of the output folder

---
 resample/srs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index cbb8941..7316c7d 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -494,7 +494,11 @@ def main(argv=None, no_exit=False):
 					pexit(4, msg, False)
 
 			# 5) Ask user for overwrite permission
-			result_file = os.path.join(out_folder, srs_data.name)
+			# the sample name is only a name, never a path
+			result_name = os.path.basename(srs_data.name)
+			if result_name in ("", os.curdir, os.pardir):
+				raise ValueError("Bad sample name in SRS file")
+			result_file = os.path.join(out_folder, result_name)
 			if not can_overwrite(result_file, options.always_yes):
 				pexit(1, "\nOperation aborted.\n", False)
 
-- 
2.43.0


From cb9f599571a7fcc2793839a82fc5bb1268840a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 10/67] fix: mark big track numbers in the SRS track data

---
 resample/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index d6874d5..7f52df3 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -440,10 +440,13 @@ class TrackData(object):
 		big_file = self.flags & self.BIG_FILE
 		data_length = 14 + len(self.signature_bytes) + (8 if big_file else 4)
 
+		if self.track_number >= 2 ** 16:
+			self.flags |= self.BIG_TACK_NUMBER
+
 		buff = io.BytesIO()
 		buff.write(S_SHORT.pack(self.flags))
 
-		if self.track_number >= 2 ** 16:
+		if self.flags & self.BIG_TACK_NUMBER:
 			data_length += 2
 			buff.write(S_LONG.pack(self.track_number))
 		else:
-- 
2.43.0


From 8513fda753c75627201d4d5cbdad307954fc629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 11/67] fix: RarStream without a name stays with the first file

---
 rescene/rarstream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rescene/rarstream.py b/rescene/rarstream.py
index c5df707..d1e0709 100644
--- a/rescene/rarstream.py
+++ b/rescene/rarstream.py
@@ -79,6 +79,8 @@ class RarStream(io.IOBase):
 		rar_file = first_rar
 		while os.path.isfile(rar_file):
 			is_old = self._process(rar_file, packed_file_name, compressed)
+			# no name given: the same file for the next volumes
+			packed_file_name = self.packed_file_name
 			rar_file = utility.exact_fn(
 				utility.next_archive(rar_file, is_old))
 
-- 
2.43.0


From a23b2b36091663e25c76a4b80e5acff87e4d9873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 12/67] fix: declare the types of zlib's crc32_combine

---
 rescene/crc32combine.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rescene/crc32combine.py b/rescene/crc32combine.py
index 1405519..90cb26b 100644
--- a/rescene/crc32combine.py
+++ b/rescene/crc32combine.py
@@ -55,8 +55,7 @@ def crc32_combine_function():
 		if _DEBUG:
 			print(libpath)
 		try:
-			zlib = ctypes.cdll.LoadLibrary(libpath)
-			return zlib.crc32_combine
+			return _zlib_combine(libpath)
 		except OSError:
 			# OSError: [WinError 193] %1 is not a valid Win32 application
 			# on C:\Program Files\Intel\WiFi\bin\zlib1.dll
@@ -68,6 +67,14 @@ def crc32_combine_function():
 		print("zlib not found in PATH: slow Python implementation used")
 		return crc32_combine
 
+def _zlib_combine(libpath):
+	"""The function of the C library: everything would be passed and
+	returned as a signed int if the types aren't set."""
+	combine = ctypes.cdll.LoadLibrary(libpath).crc32_combine
+	combine.argtypes = [ctypes.c_ulong, ctypes.c_ulong, ctypes.c_long]
+	combine.restype = ctypes.c_ulong
+	return combine
+
 def crc32_combine_ctypes(crc1, crc2, len2):
 	"""Loads the C library and calls the function."""
 	if os.name == 'nt':
@@ -76,8 +83,7 @@ def crc32_combine_ctypes(crc1, crc2, len2):
 		libpath = util.find_library('z')
 
 	if libpath:
-		zlib = ctypes.cdll.LoadLibrary(libpath)
-		return zlib.crc32_combine(crc1, crc2, len2)
+		return _zlib_combine(libpath)(crc1, crc2, len2)
 	else:
 		raise RuntimeError("zlib not found")
 
-- 
2.43.0


From 48a2bbbc6a8f22fb5df942f539a2df95b1435314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 13/67] fix: don't change the list of first volumes while
 iterating

---
 rescene/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index 9fa3e26..fde3b64 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -342,7 +342,7 @@ def first_rars(file_iter):
 
 	firsts = list(filter(is_first, input_files))
 	# .000? then no .001
-	for first in filter(lambda x: x.endswith(".000"), firsts):
+	for first in [x for x in firsts if x.endswith(".000")]:
 		try:
 			firsts.remove(first[:-1] + "1")
 		except ValueError:
-- 
2.43.0


From c3401ff05ee0cb87c52b6aa55008dba23bc25005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 14/67] fix: list and hash volumes that have the same name in
 different folders

---
 rescene/main.py | 21 +++++++++++++++++----
 rescene/srr.py  |  6 +++---
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 2a8b739..eb6bd7f 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -979,6 +979,7 @@ def info(srr_file):
 	stored_files = odict()   # files stored in the srr
 	rar_files = odict()      # rar, r00, ...
 	sfv_entries = []         # non repairable files from the SFV
+	sfv_folders = []         # the folder of the SFV for each of its entries
 	sfv_comments = []
 	archived_files = odict() # files inside rar archive(s)
 	appname = ""
@@ -1006,6 +1007,8 @@ def info(srr_file):
 					sfvdata = sfv.read(block.file_size)
 				(entries, comments, errors) = parse_sfv_data(sfvdata)
 				sfv_entries.extend(entries)
+				folder = os.path.dirname(block.file_name)
+				sfv_folders.extend([folder] * len(entries))
 				sfv_comments.extend(comments)
 				# TODO: let user know that there is a bad SFV
 				sfv_comments.extend(errors)
@@ -1016,6 +1019,8 @@ def info(srr_file):
 			current_rar = None # end the file size counting
 				
 			key = os.path.basename(block.file_name.lower())
+			if key in rar_files:  # same name in another folder (CD1, CD2)
+				key = block.file_name.lower()
 			current_rar = FileInfo()
 			current_rar.file_name = block.file_name
 			current_rar.file_size = 0
@@ -1120,15 +1125,19 @@ def info(srr_file):
 										  block.header_size)
 			rar_files[current_rar.key] = current_rar	
 	
-	def add_info_to_rar(sfv_entry):
+	rar_paths = dict((r.file_name.lower(), r) for r in rar_files.values())
+
+	def add_info_to_rar(sfv_entry, sfv_folder):
 		"""Add SFV crc32 hashes to the right RAR info block"""
 		key = os.path.basename(sfv_entry.file_name).lower()		  
-		rar = rar_files.get(key)
+		path = os.path.join(sfv_folder, sfv_entry.file_name).lower()
+		rar = rar_paths.get(path, rar_files.get(key))
 		if rar is not None:
 			rar.crc32 = sfv_entry.crc32.upper()
 			return True
 		return False
-	sfv_entries[:] = [e for e in sfv_entries if not add_info_to_rar(e)]
+	sfv_entries[:] = [e for e, folder in zip(sfv_entries, sfv_folders)
+	                  if not add_info_to_rar(e, folder)]
 	
 	return {"appname": appname, 
 	        "stored_files": stored_files,
@@ -1153,7 +1162,11 @@ def content_hash(srr_file, algorithm='sha1'):
 	with open(srr_file, 'rb') as sfile:
 		# sort based on file name without path
 		# the difference in capitals is ignored
-		for key in sorted(rar_files.keys()):
+		# the path only counts when that name is used in more folders
+		def name_and_path(key):
+			path = rar_files[key].file_name.lower()
+			return os.path.basename(path), path
+		for key in sorted(rar_files.keys(), key=name_and_path):
 			start = rar_files[key].offset_start_rar
 			try:
 				end = rar_files[key].offset_end_rar
diff --git a/rescene/srr.py b/rescene/srr.py
index 4f42840..056484d 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -108,7 +108,7 @@ def display_info(srr_file):
 	print("Creating Application:")
 	if info["appname"] == "":
 		info["appname"] = "Unknown"
-	print("\t%s\n" % info["appname"])
+	print("\t%s\n" % encodeerrors(info["appname"], sys.stdout))
 
 	if info["compression"]:
 		print("SRR for compressed RARs.\n")
@@ -124,8 +124,8 @@ def display_info(srr_file):
 		print("RAR files:")
 		for sfile in info["rar_files"].values():
 			try:
-				print("\t%s %s %d" % (sfile.file_name, sfile.crc32,
-								sfile.file_size))
+				print("\t%s %s %d" % (encodeerrors(sfile.file_name, sys.stdout),
+				                      sfile.crc32, sfile.file_size))
 			except AttributeError:  # No SFV file is used
 				print("\t%s %d" % (encodeerrors(sfile.file_name, sys.stdout),
 				                   sfile.file_size))
-- 
2.43.0


From 9b5c5d6bad26b08db59504359b3ba80ac2ab5145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 15/67] fix: padding read from a RAR knows its position

---
 rescene/rar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index 140f576..9955d55 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -852,7 +852,9 @@ class SrrRarPaddingBlock(RarBlock):
 			self.crc = 0x6C6C
 			self.rawtype = 0x6C
 			self.flags = self.LONG_BLOCK
+			self.block_position = filepos
 			self.padding_size = len(padding_bytes)
+			self.add_size = self.padding_size
 			self.header_size = HEADER_LENGTH + 4
 			
 			self._write_header(self.header_size)
@@ -1503,7 +1505,8 @@ class RarReader(object):
 		#   error: unpack requires a string argument of length 7
 		if block_start_position + HEADER_LENGTH > self._file_length:
 			if self._rar_end_block_encountered and self._readmode == self.RAR:
-				return SrrRarPaddingBlock(padding_bytes=self._rarstream.read())
+				return SrrRarPaddingBlock(filepos=block_start_position,
+					padding_bytes=self._rarstream.read())
 			else:
 				raise EnvironmentError("Cannot read basic block header.")
 
@@ -1530,7 +1533,7 @@ class RarReader(object):
 		
 		# detect padding bytes
 		if self._rar_end_block_encountered and self._readmode == self.RAR:
-			return SrrRarPaddingBlock(
+			return SrrRarPaddingBlock(filepos=block_start_position,
 				padding_bytes=header_buffer + self._rarstream.read())
 		if btype == BlockType.RarMax:
 			self._rar_end_block_encountered = True
-- 
2.43.0


From 8dcea1139175de852277d87f56fa00009554a3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:25 +0000
Subject: [PATCH 16/67] fix: corrupt RAR blocks raise the documented error

---
 rescene/main.py |  5 +----
 rescene/rar.py  | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index eb6bd7f..c29f543 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1066,10 +1066,7 @@ def info(srr_file):
 					recovery = FileInfo()
 					recovery.file_name = "Protect+"
 					recovery.file_size = 0
-				recovery.file_size += (512 * block.recovery_sectors +
-				                      2 * block.data_sectors)
-				assert block.add_size ==  \
-					(512 * block.recovery_sectors + 2 * block.data_sectors)
+				recovery.file_size += block.add_size
 			elif block.file_name == "CMT":
 				# The comments themselves are stored after being 
 				# compressed with the RAR algorithm. We cannot easily read
diff --git a/rescene/rar.py b/rescene/rar.py
index 9955d55..a6a3767 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1117,7 +1117,8 @@ class RarPackedFileBlock(RarBlock): # 0x74
 			return "%04d-%02d-%02d %02d:%02d:%02d" % timetuple
 
 	def get_compression_name(self):
-		return COMPRESSION_NAME[self.compression_method]
+		return COMPRESSION_NAME.get(self.compression_method,
+			"Unknown compression method")
 	
 	def is_compressed(self):
 		return self.compression_method != 0x30 # Storing
@@ -1160,7 +1161,8 @@ class RarPackedFileBlock(RarBlock): # 0x74
 			return ""
 	
 	def get_os(self):
-		return "%s used to create this file block." % OS_NAME[self.os]
+		return "%s used to create this file block." % (
+			OS_NAME.get(self.os, "Unknown OS"))
 	
 	def get_dictionary(self):
 		return DICTIONARY_NAME[(self.flags & 0x00e0) >> 5]
@@ -1549,6 +1551,10 @@ class RarReader(object):
 			if btype == BlockType.SrrHeader: # minimal block in C implementation
 				return SrrHeaderBlock(header_buffer, block_start_position, 
 									  self._rarstream) 
+			if (BTYPES_CLASSES.get(btype, RarBlock) not in
+			    (RarBlock, RarEndArchiveBlock)):
+				# these always have more fields
+				raise EnvironmentError("Corrupt RAR block: no fields.")
 			if _DEBUG:
 				assert btype == BlockType.RarMin or btype == BlockType.RarMax
 			return RarBlock(header_buffer, block_start_position, 
@@ -1676,6 +1682,10 @@ class RarReader(object):
 		except EnvironmentError: # corrupt file found
 			self._rarstream.close() # so it's possible to move the bad file
 			raise
+		except (struct.error, IndexError, OverflowError) as err:
+			# the block is too small for its fields or has impossible sizes
+			self._rarstream.close()
+			raise EnvironmentError("Corrupt RAR block: %s" % err)
 		if not block:
 			self._rarstream.seek(self._initial_offset)
 			raise StopIteration
-- 
2.43.0


From c0ff79b2df140d41bfa91b455e67aeda147ad2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 17/67] fix: merge to a temporary file first

---
 rescene/main.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index c29f543..851ff7d 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -59,6 +59,7 @@ from rescene.utility import filter_sfv_duplicates
 from rescene.utility import basestring, fsunicode
 from rescene.utility import decodetext, encodeerrors
 from rescene.utility import capitalized_fn, exact_fn, replace_file
+from rescene.utility import create_temp_file_name
 from rescene.osohash import osohash_from
 from rescene.utility import FileType
 
@@ -441,18 +442,26 @@ def merge_srrs(srr_files, output_file, application_name=None):
 				other_blocks.append(block)
 			
 	# write the gathered data in the correct order
-	with open(output_file, "wb") as new:
-		new.write(SrrHeaderBlock(appname=application_name).block_bytes())
-		
-		# all stored files in the beginning after the header
-		for sblock in stored_files:
-			new.write(sblock.block_bytes())
-			new.write(sblock.srr_data())
-		
-		# everything else in the same order as the original file
-		for block in other_blocks:
-			new.write(block.block_bytes())
-			#TODO: this is skipping data in some less common cases?
+	# (to another file: the output can be one of the SRR files to merge)
+	tmpname = create_temp_file_name(os.path.abspath(output_file))
+	try:
+		with open(tmpname, "wb") as new:
+			new.write(SrrHeaderBlock(appname=application_name).block_bytes())
+			
+			# all stored files in the beginning after the header
+			for sblock in stored_files:
+				new.write(sblock.block_bytes())
+				new.write(sblock.srr_data())
+			
+			# everything else in the same order as the original file
+			for block in other_blocks:
+				new.write(block.block_bytes())
+				#TODO: this is skipping data in some less common cases?
+		replace_file(tmpname, output_file)
+	except:
+		if os.path.isfile(tmpname):
+			os.unlink(tmpname)
+		raise
 
 def create_srr(srr_name, infiles, in_folder="",
                store_files=None, save_paths=False, compressed=False,
-- 
2.43.0


From e9fb4a2c1a4630776e2928d7d02d560f2b053747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:23 +0000
Subject: [PATCH 18/67] fix: don't leave a partial SRR when the creation fails

---
 bin/pyrescene.py |  6 ++----
 rescene/main.py  | 19 ++++++++++++-------
 rescene/rar.py   |  5 ++++-
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 0ccdae5..9af820f 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -902,10 +902,8 @@ def generate_srr(reldir, working_dir, options, mthread):
 			except OSError:
 				pass
 			return False
-		except KeyboardInterrupt as e:
-			# always deletes the temp file here
-			if e.message != "DONT_DELETE":
-				os.unlink(tmp_srr_name)
+		except KeyboardInterrupt:
+			# rescene doesn't leave the temp file
 			raise
 		except FileNotFound as e:
 			# rescene doesn't leave a partially finished file
diff --git a/rescene/main.py b/rescene/main.py
index 851ff7d..ab47155 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -345,7 +345,8 @@ def _discard_temp_file(tmpfile, tmpname):
 	except EnvironmentError:
 		pass  # e.g. the data left to write doesn't fit on the disk
 	finally:
-		os.unlink(tmpname)
+		if os.path.isfile(tmpname):
+			os.unlink(tmpname)
 
 def remove_stored_files(srr_file, store_files):
 	"""Remove files stored inside a SRR file.
@@ -594,10 +595,12 @@ def create_srr(srr_name, infiles, in_folder="",
 					srr.write(block.block_bytes())	
 				except (ValueError, AttributeError):
 					pass # file is too small or compressed RARs
-		return True
-	finally:
-		# when an IOError is raised, we close the file for further cleanup
 		srr.close()
+		return True
+	except:
+		# never leave something that looks like a finished SRR
+		_discard_temp_file(srr, tmp_srr_name)
+		raise
 		
 def create_srr_single_volume(srr_name, infile, tmp_srr_name=None):
 	"""
@@ -648,10 +651,12 @@ def create_srr_single_volume(srr_name, infile, tmp_srr_name=None):
 			# store the raw data for any blocks found
 			srr.write(block.block_bytes())
 				
-		return True
-	finally:
-		# when an IOError is raised, we close the file for further cleanup
 		srr.close()
+		return True
+	except:
+		# never leave something that looks like a finished SRR
+		_discard_temp_file(srr, tmp_srr_name)
+		raise
 
 def _rarreader_usenet(rarfile, read_retries=7):
 	"""Tries redownloading data read_retries times if it fails.
diff --git a/rescene/rar.py b/rescene/rar.py
index a6a3767..9420fbb 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1607,7 +1607,10 @@ class RarReader(object):
 			self._rarstream.seek(add_size, 1)
 		elif btype != BlockType.RarPackedFile and  \
 				not is_recovery and add_size > 0:
-			block_buffer += self._rarstream.read(add_size)
+			data = self._rarstream.read(add_size)
+			if len(data) != add_size:
+				raise EnvironmentError("The data of the RAR block is cut off.")
+			block_buffer += data
 
 		# If we're not returning the data, skip over it, 
 		# but only for RAR or SFX mode. 
-- 
2.43.0


From fae5aca0afaef607759d0429aa30feb9b72d3721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 19/67] fix: verify archived files with a zero checksum

---
 rescene/srr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index 056484d..2960e33 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -166,7 +166,7 @@ def verify_extracted_files(srr, in_folder, auto_locate):
 		if os.sep == '/':
 			afile.file_name = afile.file_name.replace('\\', '/')
 		# skip the directories and empty files
-		if afile.crc32 != "00000000" and afile.crc32 != "0":
+		if afile.file_size or afile.crc32 not in ("00000000", "0"):
 			name = os.path.join(in_folder, afile.file_name)
 			if not os.path.exists(name):
 				if not auto_locate:
-- 
2.43.0


From f5bf955bcfce2833aa6c745ad0b107fc4dc83f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 20/67] fix: wildcards and relative SFV paths for files to
 store

---
 rescene/main.py | 14 +++++++++-----
 rescene/srr.py  |  2 +-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index ab47155..3ce9800 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -512,7 +512,9 @@ def create_srr(srr_name, infiles, in_folder="",
 		# We store copies of any files included in the store_files list 
 		# in the .srr using a "store block".
 		# Any SFV files used are also included.
-		store_files.extend([f for f in infiles if f[-4:].lower() == ".sfv"])
+		# (their path isn't relative to the input folder)
+		store_files.extend([os.path.abspath(f) for f in infiles
+		                    if f[-4:].lower() == ".sfv"])
 		
 		if not len([_store(f, srr, save_paths, in_folder)
 					for f in _search(store_files, in_folder)]):
@@ -1671,18 +1673,20 @@ def _search(files, folder=""):
 	folder:	 location to search for files when
 	         paths are relative in files parameter
 	"""
-	folder = escape_glob(folder)
-
 	for file_name in files:
-		file_name = escape_glob(file_name)
+		# brackets are no wildcards: they are used in names
+		pattern = file_name.replace("[", "[[]")
 		# use path relative to folder if the path isn't relative or absolute 
 		if (os.path.isabs(file_name) or file_name.startswith(os.pardir)):
 			search_name = file_name
 		else:
 			search_name = os.path.join(folder, file_name)
+			pattern = os.path.join(escape_glob(folder), pattern)
 		found = False
 		
-		for found_file in glob(search_name):
+		# an existing file with such a name goes before the wildcards
+		for found_file in ([search_name] if os.path.isfile(search_name)
+		                   else sorted(glob(pattern))):
 			if os.path.isfile(found_file):
 				found =  True
 				yield found_file
diff --git a/rescene/srr.py b/rescene/srr.py
index 2960e33..023148e 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -603,7 +603,7 @@ WARNING: SRR files for compressed RARs are like SRS files:
 		if options.input_base:  # -i
 			infolder = options.input_base
 
-		if infiles[0].endswith(".srr"):
+		if infiles[0].lower().endswith(".srr"):
 			parser.exit(manage_srr(options, infolder, infiles, working_dir))
 		else:
 			parser.exit(create_srr(options, infolder, infiles, working_dir))
-- 
2.43.0


From 09388533765e221c4f49d88e19d9853591b85305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 21/67] fix: rebuild AVI samples with a stream without data

---
 resample/main.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 7f52df3..e4ca451 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3409,8 +3409,7 @@ def avi_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 	rr = RiffReader(RiffReadMode.SRS, path=srs)
 
 	# set cursor for temp files back at the beginning
-	for track in tracks.values():
-		track.track_file.seek(0)
+	reset_file_positions(tracks)
 
 	with open(out_file, "wb") as sample:
 		block_count = 0
@@ -3433,9 +3432,10 @@ def avi_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 						show_spinner(block_count)
 
 					track = tracks[rr.current_chunk.stream_number]
-					buff = track.track_file.read(rr.current_chunk.length)
-					sample.write(buff)
-					crc = crc32(buff, crc) & 0xFFFFFFFF
+					if track.track_file:  # None for a stream without data
+						buff = track.track_file.read(rr.current_chunk.length)
+						sample.write(buff)
+						crc = crc32(buff, crc) & 0xFFFFFFFF
 					rr.skip_contents()
 				else:
 					buff = rr.read_contents()
-- 
2.43.0


From a7124b6794a0538d9beeaf4f8951e5d7d7914f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 22/67] fix: compare FLAC block types of the same kind

---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index e4ca451..84e2691 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3772,7 +3772,7 @@ def flac_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				flac.write(b"fLaC")
 				crc = crc32(b"fLaC", crc)
 				fr.skip_contents()
-			elif (fr.block_type in bytearray(b"stu") and
+			elif (fr.block_type in (0x73, 0x74, 0x75) and
 					srs_flac_blocks <= 3):
 				srs_flac_blocks += 1
 				fr.skip_contents()
-- 
2.43.0


From 5d608263325a601af4e7416eee584fae89f4e6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 23/67] fix: don't seek before the start of small FLAC and MP3
 files

---
 resample/flac.py |  2 +-
 resample/mp3.py  | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/resample/flac.py b/resample/flac.py
index 8d51ab5..3e0f40d 100644
--- a/resample/flac.py
+++ b/resample/flac.py
@@ -135,7 +135,7 @@ class FlacReader(object):
 		if self.block_type == 0xFF:  # frame data
 			block_length = self._file_length - block_start_position
 			# check for ID3v1 tag
-			self._flac_stream.seek(self._file_length - 128)
+			self._flac_stream.seek(max(0, self._file_length - 128))
 			if self._flac_stream.read(3) == b"TAG":
 				block_length -= 128
 			self._block_header = b""
diff --git a/resample/mp3.py b/resample/mp3.py
index c498dcf..8adc40d 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -123,7 +123,7 @@ class Mp3Reader(object):
 
 		# 2) check for ID3v1 (last 128 bytes of mp3 file)
 		end_meta_data_offset = self._file_length
-		self._mp3_stream.seek(-128, os.SEEK_END)
+		self._mp3_stream.seek(max(0, self._file_length - 128), os.SEEK_SET)
 		idv1_start_offset = self._mp3_stream.tell()
 		first = self._mp3_stream.read(3)
 		if first == b"TAG":
@@ -153,13 +153,15 @@ class Mp3Reader(object):
 		if end_meta_data_offset - 9 >= 0:
 			self._mp3_stream.seek(end_meta_data_offset - 9, os.SEEK_SET)
 			if b"LYRICSEND" == self._mp3_stream.read(9):
-				self._mp3_stream.seek(end_meta_data_offset - 5100, os.SEEK_SET)
-				lyrics_data = self._mp3_stream.read(5100)
+				lyrics_start = max(0, end_meta_data_offset - 5100)
+				self._mp3_stream.seek(lyrics_start, os.SEEK_SET)
+				lyrics_data = self._mp3_stream.read(
+				    end_meta_data_offset - lyrics_start)
 				index = lyrics_data.find(b"LYRICSBEGIN")
 				if index == -1:
 					raise InvalidDataException(
 							"Unable to find start of LyricsV1 block")
-				start_block = end_meta_data_offset - 5100 + index
+				start_block = lyrics_start + index
 				lyrics3_block = Block(end_meta_data_offset - start_block,
 				                      "LYRICS", start_block)
 				self.blocks.append(lyrics3_block)
-- 
2.43.0


From c3947859567def47bba92cebe19a849261eabcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 24/67] fix: read Matroska track numbers as plain unsigned
 integers

---
 resample/ebml.py |  8 ++++++++
 resample/main.py | 18 +++++++++---------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/resample/ebml.py b/resample/ebml.py
index c7e4a51..1765fe6 100644
--- a/resample/ebml.py
+++ b/resample/ebml.py
@@ -73,6 +73,14 @@ def GetEbmlUInt(buff, offset, count):
 
 	return size  # integer size
 
+def GetEbmlUIntContent(buff):
+	"""buff: contents of an unsigned integer element (no length descriptor)"""
+	number = 0
+	for byte in bytearray(buff):
+		number = (number << 8) + byte
+
+	return number
+
 def GetEbmlUIntStream(stream):
 	(first_byte,) = BE_BYTE.unpack(stream.read(1))
 	bytes_consumed = GetUIntLength(first_byte)
diff --git a/resample/main.py b/resample/main.py
index 84e2691..27c7777 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -50,7 +50,7 @@ from rescene.utility import _DEBUG
 from rescene.utility import FileType
 
 from resample.ebml import EbmlReader, EbmlReadMode, EbmlElementType
-from resample.ebml import GetEbmlUInt, MakeEbmlUInt, EbmlID
+from resample.ebml import GetEbmlUIntContent, MakeEbmlUInt, EbmlID
 from resample.riff import RiffReader, RiffReadMode, RiffChunkType
 from resample.riff import InvalidMatchOffsetException
 from resample.mov import MovReader, MovReadMode
@@ -763,7 +763,7 @@ def mkv_load_srs(self, infile):
 			er.move_to_child()
 		elif er.element_type == EbmlElementType.TrackNumber:
 			elm_content = er.read_contents()
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetEbmlUIntContent(elm_content)
 			done = False
 		elif er.element_type == EbmlElementType.TrackCodec:
 			elm_content = er.read_contents()
@@ -775,7 +775,7 @@ def mkv_load_srs(self, infile):
 					elm_content.decode("ascii", errors="ignore")
 		elif er.element_type == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetEbmlUIntContent(elm_content)
 			header_stripping = algorithm == 3  # 3: header stripping
 		elif er.element_type == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
@@ -1106,7 +1106,7 @@ def mkv_profile_sample(self, mkv_data):  # FileData object
 			elm_content = er.read_contents()
 			other_length += len(elm_content)
 			mkv_data.crc32 = crc32(elm_content, mkv_data.crc32)
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetEbmlUIntContent(elm_content)
 			if not current_track_nb in tracks:
 				td = TrackData()
 				td.track_number = current_track_nb
@@ -1126,7 +1126,7 @@ def mkv_profile_sample(self, mkv_data):  # FileData object
 			# 1: bzlib
 			# 2: lzo1x
 			# 3: header stripping
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetEbmlUIntContent(elm_content)
 			tracks[current_track_nb].compression_algorithm = algorithm
 			current_flag = algorithm == 3
 		elif etype == EbmlElementType.CompressionSettings:
@@ -2271,7 +2271,7 @@ def mkv_find_sample_streams(self, tracks, main_mkv_file):
 			done = _mkv_block_find(self, tracks, er, done, tracks_main)
 		elif er.element_type == EbmlElementType.TrackNumber:
 			elm_content = er.read_contents()
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetEbmlUIntContent(elm_content)
 			if not current_track_nb in tracks_main:
 				td = TrackData()
 				td.track_number = current_track_nb
@@ -2284,7 +2284,7 @@ def mkv_find_sample_streams(self, tracks, main_mkv_file):
 			                                        "ascii", errors="ignore")
 		elif er.element_type == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetEbmlUIntContent(elm_content)
 			header_stripping = algorithm == 3
 		elif er.element_type == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
@@ -3123,7 +3123,7 @@ def mkv_extract_sample_streams(self, tracks, movie):
 				er.move_to_child()
 		elif er.element_type == EbmlElementType.TrackNumber:
 			elm_content = er.read_contents()
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetEbmlUIntContent(elm_content)
 			if not current_track_nb in tracks_main:
 				td = TrackData()
 				td.track_number = current_track_nb
@@ -3136,7 +3136,7 @@ def mkv_extract_sample_streams(self, tracks, movie):
 			                                        "ascii", errors="ignore")
 		elif er.element_type == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetEbmlUIntContent(elm_content)
 			header_stripping = algorithm == 3
 		elif er.element_type == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
-- 
2.43.0


From fb34e6eb57f63df3dc5be4e3f589b1c981436656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 25/67] fix: extract and restore Matroska attachments with the
 same name

---
 resample/main.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 27c7777..2658195 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3144,9 +3144,11 @@ def mkv_extract_sample_streams(self, tracks, movie):
 				tracks_main[current_track_nb].compression_settings = elm_content
 		elif er.element_type == EbmlElementType.AttachedFileName:
 			current_attachment = er.read_contents()
-			if current_attachment not in attachments:
-				att = AttachmentData(current_attachment)
-				attachments[current_attachment] = att
+			attkey = current_attachment
+			while attkey in attachments:
+				attkey += b".dupe"
+			current_attachment = attkey
+			attachments[attkey] = AttachmentData(attkey)
 		elif er.element_type == EbmlElementType.AttachedFileData:
 			attachment = attachments[current_attachment]
 			attachment.size = er.current_element.length
@@ -3477,6 +3479,7 @@ def mkv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 	reset_file_positions(tracks)
 
 	with open(out_file, "wb") as sample:
+		attachments_done = set()
 		current_attachment = None
 		cluster_count = 0
 		while er.read():
@@ -3506,6 +3509,9 @@ def mkv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				current_attachment = er.read_contents()
 				sample.write(current_attachment)
 				crc = crc32(current_attachment, crc) & 0xFFFFFFFF
+				while current_attachment in attachments_done:
+					current_attachment += b".dupe"
+				attachments_done.add(current_attachment)
 			elif er.element_type == EbmlElementType.AttachedFileData:
 				attachment = attachments[current_attachment]
 				# restore data from extracted attachments
-- 
2.43.0


From 012094d806b5b314c1a2dfc8f6c4658d82c4789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 26/67] fix: read the track ID of version 1 MP4 track headers

---
 resample/main.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 2658195..9f850d3 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -1245,7 +1245,7 @@ def profile_mp4(mp4_data,  # FileData object
 
 		if atype in (b"tkhd",):
 			# grab track id
-			(track_id,) = BE_LONG.unpack_from(data, 12)
+			track_id = tkhd_track_id(data)
 			assert track_id not in tracks
 			tracks[track_id] = TrackData()
 			tracks[track_id].track_number = track_id
@@ -1321,6 +1321,12 @@ def profile_mp4(mp4_data,  # FileData object
 # 	assert meta_length == mp4_data.size - data_length
 	return tracks
 
+def tkhd_track_id(data):
+	"""The dates before the track ID are larger in version 1 of the box."""
+	version_1 = data[:1] == b"\x01"
+	(track_id,) = BE_LONG.unpack_from(data, 20 if version_1 else 12)
+	return track_id
+
 def stsc(samples_chunk):
 	"""Decompact compactly coded table."""
 	old = samples_chunk
@@ -3616,7 +3622,7 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 
 		if atype in (b"tkhd",):
 			# grab track id
-			(track_id,) = BE_LONG.unpack_from(data, 12)
+			track_id = tkhd_track_id(data)
 			current_track = tracks[track_id]
 
 			# initialization
-- 
2.43.0


From 30b9f3d1fc07bd19dfe10b8a74f3c65009c07588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 27/67] fix: handle sample tracks without data

---
 resample/main.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 9f850d3..1aa0577 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2610,6 +2610,8 @@ def mp4_find_sample_streams(self, tracks, main_mp4_file):
 	for mtrack in mtracks.values():
 		try:
 			track = tracks[mtrack.track_number]
+			if not track.signature_bytes or not mtrack.chunk_offsets:
+				continue  # no data to search for or no data to search in
 			track = mp4_find_sample_stream(track, mtrack, main_mp4_file)
 # 			print(track)
 # 			print(mtrack)
@@ -3247,6 +3249,8 @@ def mp4_extract_sample_streams(self, tracks, main_mp4_file):
 	                      archived_file_name=self.archived_file_name)
 
 	for track_nb, track in tracks.items():
+		if not track.data_length or track_nb not in mtracks:
+			continue  # nothing to extract
 		mtrack = mtracks[track_nb]
 		track = mp4_extract_sample_stream(track, mtrack, main_mp4_file)
 		tracks[track_nb] = track
@@ -3439,8 +3443,9 @@ def avi_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 					if block_count % 15 == 0:
 						show_spinner(block_count)
 
-					track = tracks[rr.current_chunk.stream_number]
-					if track.track_file:  # None for a stream without data
+					track = tracks.get(rr.current_chunk.stream_number)
+					# no track or file for a stream without data
+					if track and track.track_file:
 						buff = track.track_file.read(rr.current_chunk.length)
 						sample.write(buff)
 						crc = crc32(buff, crc) & 0xFFFFFFFF
@@ -3529,9 +3534,11 @@ def mkv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				else:
 					er.skip_contents()
 			elif er.element_type == EbmlElementType.Block:
-				track = tracks[er.current_element.track_number]
+				track = tracks.get(er.current_element.track_number)
 				# restore data from extracted tracks
-				buff = track.track_file.read(er.current_element.length)
+				buff = b""
+				if track and track.track_file:
+					buff = track.track_file.read(er.current_element.length)
 				rbh = er.current_element.raw_block_header
 				sample.write(rbh)
 				crc = crc32(rbh, crc) & 0xFFFFFFFF
@@ -3556,8 +3563,8 @@ def mp4_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 	crc = 0  # Crc32.StartValue
 
 	tracks = profile_mp4_srs(srs, tracks)
+	reset_file_positions(tracks)
 	for track in tracks.values():
-		track.track_file.seek(0)
 		track = mp4_add_track_stream(track)  # for the sorting later on
 
 	mr = MovReader(MovReadMode.SRS, path=srs)
@@ -3578,6 +3585,8 @@ def mp4_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				# order the interleaved chunks
 				for (chunk, track_nb) in order_chunks(tracks):
 					track = tracks[track_nb]
+					if not track.track_file:
+						continue  # a track without any data
 					buff = track.track_file.read(sum(chunk.samples))
 					# write all the stream data
 					sample.write(buff)
@@ -3623,6 +3632,10 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 		if atype in (b"tkhd",):
 			# grab track id
 			track_id = tkhd_track_id(data)
+			if track_id not in tracks:
+				# a track without data isn't stored in the SRS file with -c
+				tracks[track_id] = TrackData()
+				tracks[track_id].track_number = track_id
 			current_track = tracks[track_id]
 
 			# initialization
-- 
2.43.0


From 84bd95d455390a509535e3c2c78a2a98ffebb5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 28/67] fix: rebuild MP4 samples with more than one mdat

---
 resample/flac.py |  7 ++++---
 resample/main.py | 20 ++++++++++++++++++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/resample/flac.py b/resample/flac.py
index 3e0f40d..f95786c 100644
--- a/resample/flac.py
+++ b/resample/flac.py
@@ -135,9 +135,10 @@ class FlacReader(object):
 		if self.block_type == 0xFF:  # frame data
 			block_length = self._file_length - block_start_position
 			# check for ID3v1 tag
-			self._flac_stream.seek(max(0, self._file_length - 128))
-			if self._flac_stream.read(3) == b"TAG":
-				block_length -= 128
+			if block_length >= 128:
+				self._flac_stream.seek(self._file_length - 128)
+				if self._flac_stream.read(3) == b"TAG":
+					block_length -= 128
 			self._block_header = b""
 		else:
 			(block_length,) = BE_LONG.unpack(b"\x00" + self._block_header[1:])
diff --git a/resample/main.py b/resample/main.py
index 1aa0577..5cba76e 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3567,6 +3567,16 @@ def mp4_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 	for track in tracks.values():
 		track = mp4_add_track_stream(track)  # for the sorting later on
 
+	mdat_count = 0
+	mr = MovReader(MovReadMode.SRS, path=srs)
+	while mr.read():
+		if mr.atom_type == b"mdat":
+			mdat_count += 1
+			mr.move_to_child()
+		else:
+			mr.skip_contents()
+	mr.close()
+
 	mr = MovReader(MovReadMode.SRS, path=srs)
 
 	with open(out_file, "wb") as sample:
@@ -3582,8 +3592,18 @@ def mp4_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 			if mr.atom_type == b"mdat":
 				mr.move_to_child()
 
+				# the place this atom must have in the sample
+				mdat_start = sample.tell()
+				mdat_end = (mdat_start + mr.current_atom.size -
+				            len(mr.current_atom.raw_header))
+				if mr.current_atom.raw_header[:4] == b"\0\0\0\0":
+					mdat_end = 2 ** 63  # up to the end of the file
+
 				# order the interleaved chunks
 				for (chunk, track_nb) in order_chunks(tracks):
+					if mdat_count > 1 and not (
+						mdat_start <= chunk.chunk_offset < mdat_end):
+						continue  # data of another mdat atom
 					track = tracks[track_nb]
 					if not track.track_file:
 						continue  # a track without any data
-- 
2.43.0


From fb0e083c8fec719e24df57e0b57acf661121dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 29/67] fix: search WMV main files with more streams and stream
 numbers up to 127

---
 resample/main.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 5cba76e..d23e867 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -1527,7 +1527,7 @@ def profile_wmv(wmv_data):  # FileData object
 			# grab track id
 			i = 16 + 16 + 8 + 4 + 4
 			(flags,) = S_SHORT.unpack_from(data, i)
-			track_id = flags & 0xF
+			track_id = flags & 0x7F  # stream numbers use 7 bits
 			assert track_id not in tracks
 			tracks[track_id] = TrackData()
 			tracks[track_id].track_number = track_id
@@ -2689,7 +2689,9 @@ def wmv_find_sample_streams(self, tracks, main_wmv_file):
 						# to see if it's the start of a new match
 						# (probably will never happen with AVI
 						# but it does in MKV, so just in case...)
-						if not track.check_bytes:
+						if not track.signature_bytes:
+							pass
+						elif not track.check_bytes:
 							payload_bytes = payload.data
 
 							search_byte = track.signature_bytes[0]
-- 
2.43.0


From 4d341f15be69182167e7171143b0e38990be1cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 30/67] fix: always skip to the end of the WMV data in SRS
 files

---
 resample/asf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resample/asf.py b/resample/asf.py
index d944e2a..52a8439 100644
--- a/resample/asf.py
+++ b/resample/asf.py
@@ -185,7 +185,9 @@ class AsfReader(object):
 		return buff
 
 	def read_data_part(self, offset, length):
-		if (offset + length == self.current_object.start_pos +
+		# SRS: the packets are smaller, so this wouldn't be the last packet
+		if (self.mode != AsfReadMode.SRS and
+			offset + length == self.current_object.start_pos +
 		                       self.current_object.size):
 			self.read_done = True
 		self._asf_stream.seek(offset, os.SEEK_SET)
-- 
2.43.0


From 70b6dd0d4ab2ca491920386428b32eb89932f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 31/67] fix: read media files in RAR volumes the same way as
 plain ones

---
 resample/main.py | 60 ++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index d23e867..e16514d 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -127,9 +127,16 @@ def file_type_info(ifile):
 
 
 	archived_file_name = ""
+	media_name = ifile
+	in_rar = False
+
+	def open_media():
+		if in_rar:
+			return rarstream.RarStream(ifile, archived_file_name)
+		return open(ifile, 'rb')
 
 	try:
-		with open(ifile, 'rb') as ofile:
+		with open_media() as ofile:
 			marker = ofile.read(14)
 	except IOError:
 		if os.path.isdir(ifile):
@@ -152,7 +159,7 @@ def file_type_info(ifile):
 				# use the first file with a supported file extension
 				# (skipping .srt and other encountered files)
 				extension = FileType.VideoExtensions + FileType.AudioExtensions
-				if archf.endswith(extension):
+				if archf.lower().endswith(extension):
 					archived_file_name = archf  # first useful file
 					break
 				first_file = False
@@ -161,9 +168,10 @@ def file_type_info(ifile):
 			# first file from RAR is the default behavior: no message
 			if not first_file and archived_file_name:
 				print("Using %s from first RAR." % archived_file_name)
-			rs = rarstream.RarStream(ifile, archived_file_name)
-			marker = rs.read(8)
-			rs.close()
+			in_rar = True
+			with open_media() as rs:
+				marker = rs.read(14)
+				media_name = rs.packed_file_name
 		except Exception as ex:
 			print(ex)
 			print("File: %s" % os.path.basename(ifile))
@@ -172,12 +180,16 @@ def file_type_info(ifile):
 		print("RAR5 not yet supported.")
 		return FileType(FileType.Unknown, archived_file_name)
 
+	# the packed file is too small
+	if len(marker) < 14:
+		return FileType(FileType.Unknown, archived_file_name)
+
 	if marker.startswith(MARKER_MKV):
 		return FileType(FileType.MKV, archived_file_name)
 	elif marker.startswith(MARKER_AVI):
 		# Some old .mp3 files use the RIFF container too
 		# e.g. (dj_tiesto_presents_allure)-we_ran_at_dawn_vinyl_djnl-bmi
-		if ifile.endswith(".mp3"):
+		if media_name.endswith(".mp3"):
 			return FileType(FileType.MP3, archived_file_name)
 		return FileType(FileType.AVI, archived_file_name)
 	if marker[4:].startswith(MARKER_MP4) or marker.startswith(MARKER_MP4_3GP):
@@ -195,7 +207,7 @@ def file_type_info(ifile):
 	elif marker.startswith(MARKER_ID3):
 		# can be MP3 or FLAC
 		size = decode_id3_size(marker[6:10])
-		with open(ifile, 'rb') as ofile:
+		with open_media() as ofile:
 			ofile.seek(10 + size)
 			if ofile.read(4) == b"fLaC":
 				return FileType(FileType.FLAC, archived_file_name)
@@ -209,17 +221,17 @@ def file_type_info(ifile):
 
 		# last attempt to detect an MP3 file by using the ID3v1 tag
 		# (last 128 bytes of mp3 file)
-		with open(ifile, 'rb') as ofile:
+		with open_media() as ofile:
 			try:
 				ofile.seek(-128, os.SEEK_END)
 				if ofile.read(3) == b"TAG":
 					return FileType(FileType.MP3, archived_file_name)
-			except EnvironmentError:
+			except (EnvironmentError, IndexError):
 				# IOError possible when RAR file is broken
 				pass
 
 		# check for stream types based on extension and sync for M2TS
-		name = ifile.lower()
+		name = media_name.lower()
 		if name.endswith(FileType.StreamExtensions):
 			# M2TS disabled since it's not working nor completed
 			# still differences in each track
@@ -1310,8 +1322,8 @@ def profile_mp4(mp4_data,  # FileData object
 
 			# in profile mode, we want to build track signatures
 			# TODO: skip in other modes
-			current_track.signature_bytes = mp4_signature_bytes(current_track,
-			                                                    mp4_data.name)
+			current_track.signature_bytes = mp4_signature_bytes(
+				current_track, mp4_data.name, archived_file_name)
 			# the size of the track
 			current_track.data_length = sum(current_track.sample_lengths)
 	mr.close()
@@ -1398,7 +1410,7 @@ def mp4_profile_sample(self, mp4_data):
 
 	return tracks, {}  # attachments
 
-def mp4_signature_bytes(track, mp4_file):
+def mp4_signature_bytes(track, mp4_file, archived_file_name=""):
 	"""Returns the signature bytes for a track. The signature bytes are
 	the 256 first bytes in the track."""
 	previous_samples = 0
@@ -1419,7 +1431,7 @@ def mp4_signature_bytes(track, mp4_file):
 		                 previous_samples + samples_in_chunk])
 
 		chunk_content = b""
-		with open(mp4_file, "rb") as mov:
+		with open_main(mp4_file, archived_file_name) as mov:
 			mov.seek(chunk_offset)
 			chunk_content = mov.read(chunk_size)
 
@@ -2438,12 +2450,13 @@ def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
 				track.check_bytes_bug = b""
 		offset += er.current_element.frame_lengths[i]
 
-def mp4_find_sample_stream(track, mtrack, main_mp4_file):
+def mp4_find_sample_stream(track, mtrack, main_mp4_file,
+                           archived_file_name=""):
 	"""Check if the track from the sample exist in the main file. This is
 	done based on the track signature alone, not the whole data stream."""
 	mtrack = mp4_add_track_stream(mtrack)
 	# open stream here so we open and close the mp4 file just once
-	mtrack.trackstream.stream = open_main(main_mp4_file)
+	mtrack.trackstream.stream = open_main(main_mp4_file, archived_file_name)
 
 	data = mtrack.trackstream.read(len(track.signature_bytes))
 # 	from binascii import hexlify
@@ -2612,7 +2625,8 @@ def mp4_find_sample_streams(self, tracks, main_mp4_file):
 			track = tracks[mtrack.track_number]
 			if not track.signature_bytes or not mtrack.chunk_offsets:
 				continue  # no data to search for or no data to search in
-			track = mp4_find_sample_stream(track, mtrack, main_mp4_file)
+			track = mp4_find_sample_stream(track, mtrack, main_mp4_file,
+			                               self.archived_file_name)
 # 			print(track)
 # 			print(mtrack)
 			track.main_track = mtrack
@@ -3254,22 +3268,24 @@ def mp4_extract_sample_streams(self, tracks, main_mp4_file):
 		if not track.data_length or track_nb not in mtracks:
 			continue  # nothing to extract
 		mtrack = mtracks[track_nb]
-		track = mp4_extract_sample_stream(track, mtrack, main_mp4_file)
+		track = mp4_extract_sample_stream(track, mtrack, main_mp4_file,
+		                                  self.archived_file_name)
 		tracks[track_nb] = track
 
 	return tracks, {}  # attachments
 
-def open_main(big_file):
+def open_main(big_file, archived_file_name=""):
 	if utility.is_rar(big_file):
-		return rarstream.RarStream(big_file)
+		return rarstream.RarStream(big_file, archived_file_name)
 	else:
 		return open(big_file, "rb")
 
-def mp4_extract_sample_stream(track, mtrack, main_mp4_file):
+def mp4_extract_sample_stream(track, mtrack, main_mp4_file,
+                              archived_file_name=""):
 	"""Can throw InvalidMatchOffset"""
 	track.track_file = tempfile.TemporaryFile()
 	mtrack = mp4_add_track_stream(mtrack)
-	mtrack.trackstream.stream = open_main(main_mp4_file)
+	mtrack.trackstream.stream = open_main(main_mp4_file, archived_file_name)
 
 	mtrack.trackstream.seek(track.match_offset)
 	track.track_file.write(mtrack.trackstream.read(track.data_length))
-- 
2.43.0


From d4740f6d3a0652033bfc6deda705a5cff8088112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 32/67] fix: match MKV signatures that end inside stripped
 header bytes

---
 resample/main.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index e16514d..8240759 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2358,8 +2358,8 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 				check_bytes = track.check_bytes  # from sample
 				check_bytes += sforsample  # stored settings from main video
 				check_bytes += buff[offset + len(sformain):
-									offset + len(sformain) + lcb -
-									len(track.check_bytes) - len(sforsample)]
+				                    offset + len(sformain) + lcb]
+				check_bytes = check_bytes[:lcb]
 
 				if track.signature_bytes.startswith(check_bytes):
 					track.check_bytes = check_bytes
@@ -2377,7 +2377,8 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 				lcb = min(len(track.signature_bytes), flength)
 				check_bytes = sforsample
 				check_bytes += buff[offset + len(sformain):
-				                    offset + len(sformain) + lcb - len(sforsample)]
+				                    offset + len(sformain) + lcb]
+				check_bytes = check_bytes[:lcb]
 				if track.signature_bytes.startswith(check_bytes):
 					track.check_bytes = check_bytes
 					track.match_offset = (er.current_element.element_start_pos
@@ -2427,8 +2428,8 @@ def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
 			check_bytes = track.check_bytes_bug  # from sample
 			check_bytes += sforsample  # stored settings from main video
 			check_bytes += buff[offset + len(sformain):
-								offset + len(sformain) + lcb -
-								len(track.check_bytes_bug) - len(sforsample)]
+								offset + len(sformain) + lcb]
+			check_bytes = check_bytes[:lcb]
 
 			if track.signature_bytes.startswith(check_bytes):
 				track.check_bytes_bug = check_bytes
@@ -2439,7 +2440,8 @@ def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
 			lcb = min(len(track.signature_bytes), flength)
 			check_bytes = sforsample
 			check_bytes += buff[offset + len(sformain):
-								offset + len(sformain) + lcb - len(sforsample)]
+								offset + len(sformain) + lcb]
+			check_bytes = check_bytes[:lcb]
 			if track.signature_bytes.startswith(check_bytes):
 				track.check_bytes_bug = check_bytes
 				match_offset = (er.current_element.element_start_pos
-- 
2.43.0


From 67eb08c87c9fa145f464819e550061329b237f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 33/67] fix: end on malformed MP4 sample tables and WMV data
 objects

---
 resample/asf.py  | 29 +++++++++++----
 resample/main.py | 94 +++++++++++++++++++++++++++---------------------
 resample/mov.py  |  9 +++++
 3 files changed, 86 insertions(+), 46 deletions(-)

diff --git a/resample/asf.py b/resample/asf.py
index 52a8439..e8eb5a5 100644
--- a/resample/asf.py
+++ b/resample/asf.py
@@ -140,10 +140,8 @@ class AsfReader(object):
 			o = self.current_object
 
 			size = len(o.raw_header)
-			i = 16 + 8 + 16
-			(total_data_packets,) = S_LONGLONG.unpack_from(o.raw_header, i)
 			# data packet/media object size
-			psize = (o.size - len(o.raw_header)) // total_data_packets
+			total_data_packets, psize = asf_data_packets(o.raw_header, o.size)
 			rp_offsets = 0
 			start = o.start_pos + len(o.raw_header)
 			for i in range(total_data_packets):
@@ -151,9 +149,8 @@ class AsfReader(object):
 				packet = AsfDataPacket()
 				packet.data_file_offset = start + rp_offsets
 				self._asf_stream.seek(packet.data_file_offset)
-				# just read all of it to make it easier
-				# SRS files are small anyway
-				packet.data = self._asf_stream.read()
+				# the packet can't be larger without its payload data
+				packet.data = self._asf_stream.read(psize)
 # 				packet.data_size = len(data) # psize
 
 				s = asf_data_get_packet(packet, psize, AsfReadMode.SRS)
@@ -177,6 +174,7 @@ class AsfReader(object):
 			                      os.SEEK_SET)
 
 		self.read_done = True
+		self._check_size()
 
 		# skip header bytes
 		hl = len(self.current_object.raw_header)
@@ -196,9 +194,17 @@ class AsfReader(object):
 	def skip_contents(self):
 		if not self.read_done:
 			self.read_done = True
+			self._check_size()
 			self._asf_stream.seek(self.current_object.start_pos +
 			                      self.current_object.size, os.SEEK_SET)
 
+	def _check_size(self):
+		"""An object includes its own header:
+		there is no way to get past it otherwise."""
+		if self.current_object.size < len(self.current_object.raw_header):
+			raise InvalidDataException("Invalid object length at 0x%08X" %
+			                           self.current_object.start_pos)
+
 	def move_to_child(self):
 		self.read_done = True
 		# skip the header bytes
@@ -352,6 +358,17 @@ def asf_data_read_payload_fields(payload, flags, data, size,
 	assert skip == datalen
 	return datalen;
 
+def asf_data_packets(raw_header, size):
+	"""The number of data packets of a data object and the packet size.
+	raw_header: the 50 bytes before the first packet
+	size: size of the whole data object (of the sample)"""
+	(count,) = S_LONGLONG.unpack_from(raw_header, 16 + 8 + 16)
+	data_size = size - len(raw_header)
+	# there are no empty packets
+	if not 0 < count <= data_size:
+		raise InvalidDataException("Invalid number of data packets: %d" % count)
+	return count, data_size // count
+
 def asf_data_get_packet(packet, packet_size, mode=AsfReadMode.Sample):
 	read = 0
 
diff --git a/resample/main.py b/resample/main.py
index 8240759..13cbbc7 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -56,6 +56,7 @@ from resample.riff import InvalidMatchOffsetException
 from resample.mov import MovReader, MovReadMode
 from resample.asf import AsfReader, AsfReadMode
 from resample.asf import AsfDataPacket, asf_data_get_packet
+from resample.asf import asf_data_packets
 from resample.asf import GUID_HEADER_OBJECT, GUID_DATA_OBJECT
 from resample.asf import GUID_STREAM_OBJECT, GUID_FILE_OBJECT
 from resample.asf import GUID_SRS_FILE, GUID_SRS_TRACK, GUID_SRS_PADDING
@@ -1296,22 +1297,18 @@ def profile_mp4(mp4_data,  # FileData object
 				result_tuple = struct.unpack_from(">LLL", data, j)
 				current_track.chunk_lengths.append(result_tuple)
 
+				# each chunk has an offset of at least 4 bytes in the file
+				if result_tuple[0] > mr.length() // 4:
+					raise ValueError("Invalid sample to chunk box")
+
 			# enlarge compactly coded tables
 			current_track.chunk_lengths = stsc(current_track.chunk_lengths)
 
 # 			print(current_track.chunk_lengths)
 
 		elif atype in (b"stsz", b"stz2"):  # Sample Size Boxes
-			(sample_size,) = BE_LONG.unpack_from(data, 4)
-			(sample_count,) = BE_LONG.unpack_from(data, 8)
-			if sample_size == 0:
-				for i in range(sample_count):
-					j = 12 + i * 4
-					(out,) = BE_LONG.unpack_from(data, j)
-					current_track.sample_lengths.append(out)
-			else:
-				for i in range(sample_count):
-					current_track.sample_lengths.append(sample_size)
+			current_track.sample_lengths.extend(
+				mp4_sample_lengths(atype, data, mr.length()))
 # 			print(current_track.sample_lengths)
 
 		if (current_track and (not track_processed) and
@@ -1339,6 +1336,31 @@ def tkhd_track_id(data):
 	(track_id,) = BE_LONG.unpack_from(data, 20 if version_1 else 12)
 	return track_id
 
+def mp4_sample_lengths(atype, data, max_length):
+	"""Returns the sizes of all samples of a track.
+	max_length: the samples together can't have more data than this.
+	Nothing else limits the amount of samples when they all are the same size.
+	"""
+	(sample_size,) = BE_LONG.unpack_from(data, 4)
+	(sample_count,) = BE_LONG.unpack_from(data, 8)
+	if atype == b"stz2":  # compact: 3 reserved bytes and the field size
+		field_size = sample_size & 0xFF
+		if field_size == 4:
+			(fields,) = struct.unpack_from("%ds" % ((sample_count + 1) // 2),
+			                               data, 12)
+			lengths = []
+			for two in bytearray(fields):
+				lengths += [two >> 4, two & 0xF]
+			return lengths[:sample_count]
+		field_type = {8: "B", 16: "H"}.get(field_size)
+		if not field_type:
+			raise ValueError("Invalid compact sample size box")
+		return struct.unpack_from(">%d%s" % (sample_count, field_type),
+		                          data, 12)
+	if sample_size == 0:
+		return struct.unpack_from(">%dL" % sample_count, data, 12)
+	return [sample_size] * min(sample_count, max_length // sample_size + 1)
+
 def stsc(samples_chunk):
 	"""Decompact compactly coded table."""
 	old = samples_chunk
@@ -1465,10 +1487,9 @@ def profile_wmv(wmv_data):  # FileData object
 		elif oguid == GUID_DATA_OBJECT:
 			padding_amount = 0
 			padding_bytes = b""
-			i = 16 + 8 + 16
-			(total_data_packets,) = S_LONGLONG.unpack_from(o.raw_header, i)
 			# data packet/media object size
-			psize = (o.size - len(o.raw_header)) // total_data_packets
+			total_data_packets, psize = asf_data_packets(
+				o.raw_header, o.size)
 			start = o.start_pos + len(o.raw_header)
 			for i in range(total_data_packets):
 				data = ar.read_data_part(start + i * psize, psize)
@@ -2019,10 +2040,9 @@ def wmv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 			srsf.write(o.raw_header)
 
 			if o.type == GUID_DATA_OBJECT:
-				i = 16 + 8 + 16
-				(total_data_packets,) = S_LONGLONG.unpack_from(o.raw_header, i)
 				# data packet/media object size
-				psize = (o.size - len(o.raw_header)) // total_data_packets
+				total_data_packets, psize = asf_data_packets(
+					o.raw_header, o.size)
 				start = o.start_pos + len(o.raw_header)
 				for i in range(total_data_packets):
 					data = ar.read_data_part(start + i * psize, psize)
@@ -2647,11 +2667,9 @@ def wmv_find_sample_streams(self, tracks, main_wmv_file):
 		o = ar.current_object
 
 		if o.type == GUID_DATA_OBJECT:
-			i = 16 + 8 + 16
-			(total_data_packets,) = S_LONGLONG.unpack_from(
-				o.raw_header, i)
 			# data packet/media object size
-			psize = (o.size - len(o.raw_header)) // total_data_packets
+			total_data_packets, psize = asf_data_packets(
+				o.raw_header, o.size)
 			start = o.start_pos + len(o.raw_header)
 			for i in range(total_data_packets):
 				if i % 15 == 0:
@@ -3311,15 +3329,13 @@ def wmv_extract_sample_streams(self, tracks, main_wmv_file):
 		oguid = ar.object_guid
 
 		if oguid == GUID_DATA_OBJECT:
-			i = 16 + 8 + 16
-			(total_data_packets,) = S_LONGLONG.unpack_from(o.raw_header, i)
 			# data packet/media object size
-			psize = (o.size - len(o.raw_header)) // total_data_packets
+			total_data_packets, psize = asf_data_packets(
+				o.raw_header, o.size)
 			start = o.start_pos + len(o.raw_header)
-			for i in range(total_data_packets):
-				# don't do unnecessary processing
-				if start + i * psize + psize < start_offset:
-					continue
+			# don't do unnecessary processing
+			first = max(0, (start_offset - start - 1) // psize)
+			for i in range(first, total_data_packets):
 				data = ar.read_data_part(start + i * psize, psize)
 				assert len(data) == psize
 
@@ -3707,19 +3723,18 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 				result_tuple = struct.unpack_from(">LLL", data, j)
 				current_track.chunk_lengths.append(result_tuple)
 
+				# each chunk has an offset of at least 4 bytes in the file
+				if result_tuple[0] > mr.length() // 4:
+					raise ValueError("Invalid sample to chunk box")
+
 			# enlarge compactly coded tables
 			current_track.chunk_lengths = stsc(current_track.chunk_lengths)
 		elif atype in (b"stsz", b"stz2"):  # Sample Size Boxes
-			(sample_size,) = BE_LONG.unpack_from(data, 4)
-			(sample_count,) = BE_LONG.unpack_from(data, 8)
-			if sample_size == 0:
-				for i in range(sample_count):
-					j = 12 + i * 4
-					(out,) = BE_LONG.unpack_from(data, j)
-					current_track.sample_lengths.append(out)
-			else:
-				for i in range(sample_count):
-					current_track.sample_lengths.append(sample_size)
+			stored = 0
+			if current_track.track_file:
+				stored = current_track.track_file.seek(0, os.SEEK_END)
+			current_track.sample_lengths.extend(
+				mp4_sample_lengths(atype, data, stored))
 
 
 		if (current_track and (not track_processed) and
@@ -3758,10 +3773,9 @@ def wmv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 
 			# 2) body
 			if oguid == GUID_DATA_OBJECT:
-				i = 16 + 8 + 16
-				(total_data_packets,) = S_LONGLONG.unpack_from(o.raw_header, i)
 				# data packet/media object size
-				psize = (o.osize - len(o.raw_header)) // total_data_packets
+				total_data_packets, psize = asf_data_packets(
+					o.raw_header, o.osize)
 				rp_offsets = 0
 				start = o.start_pos + len(o.raw_header)
 				for i in range(total_data_packets):
diff --git a/resample/mov.py b/resample/mov.py
index 10ca160..61b8013 100644
--- a/resample/mov.py
+++ b/resample/mov.py
@@ -120,6 +120,11 @@ class MovReader(object):
 				# the atom extends to the end of the file
 				atom_length = self._file_length - atom_start_position
 
+		# an atom includes its own header: no way to get past it otherwise
+		if atom_length < hsize:
+			raise InvalidDataException("Invalid box length at 0x%08X" %
+			                           atom_start_position)
+
 		# sanity check on atom length
 		# Skip check on mdat so we can still report expected size.
 		# This is only applied on samples,
@@ -200,6 +205,10 @@ class MovReader(object):
 		hl = len(self.current_atom.raw_header)
 		self._mov_stream.seek(hl, os.SEEK_CUR)
 
+	def length(self):
+		"""Length of the file being read."""
+		return self._file_length
+
 	def close(self):
 		try:  # close the file/stream
 			self._mov_stream.close()
-- 
2.43.0


From 3a8f70ac5ed304cf178eb663fd52d1e84ac06820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 34/67] fix: MP3 tags are not looked for inside of SRS data,
 APE tags have a footer

---
 resample/mp3.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/resample/mp3.py b/resample/mp3.py
index 8adc40d..ce8576e 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -126,7 +126,9 @@ class Mp3Reader(object):
 		self._mp3_stream.seek(max(0, self._file_length - 128), os.SEEK_SET)
 		idv1_start_offset = self._mp3_stream.tell()
 		first = self._mp3_stream.read(3)
-		if first == b"TAG":
+		# (track signatures in SRS files can have these bytes too)
+		srs_end = self._end_srs_blocks(begin_main_content)
+		if first == b"TAG" and idv1_start_offset >= srs_end:
 			idv1_block = Block(128, "TAG", idv1_start_offset)
 			self.blocks.append(idv1_block)
 			end_meta_data_offset = idv1_start_offset
@@ -182,11 +184,12 @@ class Mp3Reader(object):
 				else:  # 1000
 					header = 0
 				(size,) = S_LONG.unpack(self._mp3_stream.read(4))
-				start_block = end_meta_data_offset - size - header
-				apev2_block = Block(end_meta_data_offset - start_block,
-				                    "APE%s" % version, start_block)
-				self.blocks.append(apev2_block)
-				end_meta_data_offset -= apev2_block.size
+				if size >= 32:  # the footer that has been read is included
+					start_block = end_meta_data_offset - size - header
+					apev2_block = Block(end_meta_data_offset - start_block,
+					                    "APE%s" % version, start_block)
+					self.blocks.append(apev2_block)
+					end_meta_data_offset -= apev2_block.size
 
 		def marker_has_issues(marker):
 			if len(marker) != 4:
@@ -277,6 +280,18 @@ class Mp3Reader(object):
 		# the order of which we add blocks doesn't matter this way
 		self.blocks.sort(key=lambda block: block.start_pos)
 
+	def _end_srs_blocks(self, offset):
+		"""Offset after the SRS blocks that start on the given offset."""
+		while True:
+			self._mp3_stream.seek(offset, os.SEEK_SET)
+			header = self._mp3_stream.read(8)
+			if len(header) < 8 or header[:3] != b"SRS":
+				return offset
+			(size,) = S_LONG.unpack(header[4:])
+			if size < 8 or offset + size > self._file_length:
+				return offset
+			offset += size
+
 	def read(self):
 		for block in self.blocks:
 			self.current_block = block
-- 
2.43.0


From c1487e6329aa5da48509c8b7d5a54a21499b2718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 35/67] fix: refuse Matroska samples with invalid lacing

---
 resample/ebml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resample/ebml.py b/resample/ebml.py
index 1765fe6..8737530 100644
--- a/resample/ebml.py
+++ b/resample/ebml.py
@@ -416,6 +416,9 @@ class EbmlReader(object):
 			data_length = element_length - len(blockHeader)
 			frameSizes, bytesConsumed = GetBlockFrameLengths(lace_type,
 			                              data_length, self._ebml_stream)
+			if self.mode == EbmlReadMode.Sample and min(frameSizes) < 0:
+				raise InvalidDataException("Invalid lacing at 0x{0:08X}".format(
+				                           element_start_position))
 			if bytesConsumed > 0:
 				newBlockHeader = blockHeader
 				self._ebml_stream.seek(-bytesConsumed, os.SEEK_CUR)
-- 
2.43.0


From 8de1fb7d78d510358028c536e41b6d8cf7831b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:30 +0000
Subject: [PATCH 36/67] fix: no SRS file of samples that can't be rebuilt with
 it

---
 resample/main.py | 60 +++++++++++++++++++++++++++++++++++++++++++-----
 resample/srs.py  |  5 ++--
 2 files changed, 57 insertions(+), 8 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 13cbbc7..8f0ce6d 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -1170,6 +1170,7 @@ def mkv_profile_sample(self, mkv_data):  # FileData object
 	er.close()
 	remove_spinner()
 
+	mkv_data.other_length = other_length
 	total_size = other_length
 	attachment_size = 0
 
@@ -1910,9 +1911,21 @@ def m2ts_profile_sample(self, m2ts_data):  # FileData object
 
 	return tracks, {}
 
+def check_srs_stored(stored):
+	"""Without our custom data, nothing can be rebuilt with the SRS file."""
+	if not stored:
+		raise ValueError("The sample has no place to store the SRS data")
+
+def check_kept_bytes(kept, sample_data):
+	"""The profiling looks inside more elements than the SRS creation:
+	the same data must be removed when an element goes beyond its parent."""
+	if kept != getattr(sample_data, "other_length", kept):
+		raise ValueError("The sample can't be rebuilt: unexpected structure")
+
 def avi_create_srs(self, tracks, sample_data, sample, srs, big_file):
 	with open(srs, "wb") as srsf:
 		rr = RiffReader(RiffReadMode.AVI, sample)
+		stored = False
 		while rr.read():
 			c = rr.current_chunk
 
@@ -1924,6 +1937,7 @@ def avi_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				# we put them after the avi headers
 				# so mediainfo can still read them from the SRS
 				if c.list_type == b"LIST" and c.fourcc == b"movi":
+					stored = True
 					file_chunk = sample_data.serialize_as_riff()
 					assert file_chunk
 					srsf.write(file_chunk)
@@ -1942,6 +1956,7 @@ def avi_create_srs(self, tracks, sample_data, sample, srs, big_file):
 			else:
 				if rr.chunk_type == RiffChunkType.Movi:
 					# don't copy stream data
+					check_srs_stored(stored)  # loading stops here
 					rr.skip_contents()
 				else:
 					# do copy everything else
@@ -1950,18 +1965,23 @@ def avi_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				if rr.has_padding:
 					srsf.write(S_BYTE.pack(rr.padding_byte))
 		rr.close()
+	check_srs_stored(stored)
 
 def mkv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 	with open(srs, "wb") as srsf:
 		er = EbmlReader(EbmlReadMode.MKV, sample)
+		stored = False
+		kept = 0  # bytes of the sample that are in the SRS file
 		while er.read():
 			e = er.current_element
 
 			srsf.write(e.raw_header)
+			kept += len(e.raw_header)
 
 			if er.element_type == EbmlElementType.Segment:
 				# in store mode, create and write our custom ebml element
 				# as the first child of the segment
+				stored = True
 				file_element = sample_data.serialize_as_ebml()
 				element_size = len(file_element)
 
@@ -1993,6 +2013,7 @@ def mkv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 			elif er.element_type == EbmlElementType.Block:
 				# copy block header, but eliminate any frame data
 				srsf.write(e.raw_block_header)
+				kept += len(e.raw_block_header)
 				er.skip_contents()
 			else:
 				# anything not caught above is considered metadata,
@@ -2000,18 +2021,26 @@ def mkv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				# EbmlElementType.Timecode
 				# EbmlElementType.TimecodeScale
 				# EbmlElementType.AttachedFileName
-				srsf.write(er.read_contents())
+				data = er.read_contents()
+				srsf.write(data)
+				kept += len(data)
 		er.close()
+	check_srs_stored(stored)
+
+	check_kept_bytes(kept, sample_data)
 
 def mp4_create_srs(self, tracks, sample_data, sample, srs, big_file):
 	with open(srs, "wb") as movf:
 		mr = MovReader(MovReadMode.MP4, sample)
+		stored = False
+		kept = 0  # bytes of the sample that are in the SRS file
 		while mr.read():
 			atom = mr.current_atom
 
 			if atom.type == b"mdat":
 				# in store mode, create and write our custom atoms
 				# as atom child in the root
+				stored = True
 				file_atom = sample_data.serialize_as_mov()
 				movf.write(file_atom)
 
@@ -2022,18 +2051,24 @@ def mp4_create_srs(self, tracks, sample_data, sample, srs, big_file):
 					movf.write(track_atom)
 
 			movf.write(atom.raw_header)
+			kept += len(atom.raw_header)
 
 			if atom.type == b"mdat":
 				# don't copy stream data
 				mr.skip_contents()
 			else:
 				# do copy everything else
-				movf.write(mr.read_contents())
+				data = mr.read_contents()
+				movf.write(data)
+				kept += len(data)
 		mr.close()
+	check_srs_stored(stored)
+	check_kept_bytes(kept, sample_data)
 
 def wmv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 	with open(srs, "wb") as srsf:
 		ar = AsfReader(AsfReadMode.WMV, sample)
+		stored = False
 		while ar.read():
 			o = ar.current_object
 
@@ -2063,6 +2098,7 @@ def wmv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 
 				# in store mode, create and write our custom objects
 				# as object child in the root
+				stored = True
 				file_atom = sample_data.serialize_as_asf()
 				srsf.write(file_atom)
 
@@ -2087,10 +2123,13 @@ def wmv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				# do copy everything else
 				srsf.write(ar.read_contents())
 		ar.close()
+	check_srs_stored(stored)
 
 def flac_create_srs(self, tracks, sample_data, sample, srs, big_file):
 	with open(srs, "wb") as flacf:
 		fr = FlacReader(sample)
+		previous_is_last = False
+		last_blocks = 0
 		while fr.read():
 			block = fr.current_block
 
@@ -2109,10 +2148,18 @@ def flac_create_srs(self, tracks, sample_data, sample, srs, big_file):
 
 			if block.is_frame_data():
 				# don't copy stream data
+				# it'll be put back after the last metadata block
+				if not previous_is_last or last_blocks != 1:
+					raise ValueError("The sample can't be rebuilt: "
+					                 "no last metadata block")
 				fr.skip_contents()
 			else:
 				# do copy everything else
 				flacf.write(fr.read_contents())
+
+			previous_is_last = bool(block.is_last_block())
+			if previous_is_last and not block.is_frame_data():
+				last_blocks += 1
 		fr.close()
 
 def mp3_create_srs(self, tracks, sample_data, sample, srs, big_file):
@@ -3220,7 +3267,8 @@ def _mkv_block_extract(tracks, tracks_main, er, done):
 		# System.Collections.Generic.KeyNotFoundException on .NET version
 		er.skip_contents()
 		return done
-	track_main = tracks_main[er.current_element.track_number]
+	# (broken files can have blocks of a track that isn't in the track list)
+	track_main = tracks_main.get(er.current_element.track_number, TrackData())
 
 	# grab compression settings
 	sforsample = b""  # settings for the sample tracks
@@ -3843,7 +3891,7 @@ def flac_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 		track.track_file.seek(0)
 
 	with open(out_file, "wb") as flac:
-		srs_flac_blocks = 0
+		srs_flac_blocks = set()  # one of each type
 		while fr.read():
 			assert not fr.read_done
 
@@ -3852,8 +3900,8 @@ def flac_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				crc = crc32(b"fLaC", crc)
 				fr.skip_contents()
 			elif (fr.block_type in (0x73, 0x74, 0x75) and
-					srs_flac_blocks <= 3):
-				srs_flac_blocks += 1
+					fr.block_type not in srs_flac_blocks):
+				srs_flac_blocks.add(fr.block_type)
 				fr.skip_contents()
 			else:
 				crc = crc32(fr.current_block.raw_header, crc)
diff --git a/resample/srs.py b/resample/srs.py
index 7316c7d..52563c4 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -336,7 +336,7 @@ def main(argv=None, no_exit=False):
 			except resample.IncompleteSample as err:
 				pexit(2, str(err), False)
 
-			if not len(tracks):
+			if not any(t.data_length for t in tracks.values()):
 				pexit(2, "No A/V data was found. "
 				         "The sample is likely corrupted.\n", False)
 
@@ -589,7 +589,8 @@ def main(argv=None, no_exit=False):
 				if track.track_file:
 					track.track_file.close()
 			for attachment in attachments.values():
-				attachment.attachment_file.close()
+				if attachment.attachment_file:
+					attachment.attachment_file.close()
 
 			if sfile.crc32 == srs_data.crc32:
 				replace_result(out_file, result_file)
-- 
2.43.0


From 9773361aebc1aa78fec78a97c3ba1fe99f6b30f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 37/67] fix: a partly matched signature is not a located track

---
 resample/main.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 8f0ce6d..66cb069 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2223,6 +2223,14 @@ def m2ts_create_srs(self, tracks, sample_data, sample, srs, big_file):
 		streamf.seek(headers_size, os.SEEK_SET)
 		streamf.write(S_LONG.pack(headers_end - headers_size + 4))
 
+def clear_partial_matches(tracks):
+	"""The data ended before the complete signature was seen: no match."""
+	for track in tracks.values():
+		if 0 < len(track.check_bytes) < len(track.signature_bytes):
+			track.check_bytes = b""
+			track.match_offset = 0
+			track.match_length = 0
+
 def avi_find_sample_streams(self, tracks, main_avi_file):
 	rr = RiffReader(RiffReadMode.AVI, main_avi_file,
 		archived_file_name=self.archived_file_name)
@@ -2238,6 +2246,7 @@ def avi_find_sample_streams(self, tracks, main_avi_file):
 	remove_spinner()
 
 	rr.close()
+	clear_partial_matches(tracks)
 	return tracks
 
 def _avi_normal_chunk_find(tracks, rr, block_count, done):
@@ -2381,6 +2390,7 @@ def mkv_find_sample_streams(self, tracks, main_mkv_file):
 	remove_spinner()
 
 	er.close()
+	clear_partial_matches(tracks)
 	return tracks
 
 def _mkv_block_find(self, tracks, er, done, tracks_main):
@@ -2446,7 +2456,8 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 				check_bytes += buff[offset + len(sformain):
 				                    offset + len(sformain) + lcb]
 				check_bytes = check_bytes[:lcb]
-				if track.signature_bytes.startswith(check_bytes):
+				if (check_bytes and
+					track.signature_bytes.startswith(check_bytes)):
 					track.check_bytes = check_bytes
 					track.match_offset = (er.current_element.element_start_pos
 					                      + len(er.current_element.raw_header)
@@ -2829,6 +2840,7 @@ def wmv_find_sample_streams(self, tracks, main_wmv_file):
 
 	remove_spinner()
 
+	clear_partial_matches(tracks)
 	return tracks
 
 def flac_find_sample_streams(self, tracks, main_flac_file):
-- 
2.43.0


From 1ef704de2a400fdcee05c0cdfb0c82a6e1d60256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 38/67] fix: no temporary music file left after a failed
 fingerprint

---
 resample/fpcalc.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/resample/fpcalc.py b/resample/fpcalc.py
index 6c34726..d2498f2 100644
--- a/resample/fpcalc.py
+++ b/resample/fpcalc.py
@@ -47,10 +47,7 @@ def fingerprint(file_name, temp_dir=None, recursive=0):
 	"""Calculates the fingerprint of the given file.
 	temp_dir: optional temporary directory to use
 	recursive: local parameter to prevent endless loop after stripping tags"""
-	duration = fp = b""
-	bad = False
-	fpcalc = find_fpcalc_executable()
-	temp_cleanup = False
+	find_fpcalc_executable()
 
 	try:
 		file_name.encode('ascii')
@@ -61,14 +58,25 @@ def fingerprint(file_name, temp_dir=None, recursive=0):
 		# test release: VA-Tony_Hawks_Pro_Skater_4-Soundtrack-2003-RARNeT
 		# copy the file with a default name and create the fp for that file
 		print("Non-ASCII characters detected: creating temporary file.")
-		temp_cleanup = True
 		name_suffix = make_temp_suffix(file_name)
 		(fd, tmpname) = tempfile.mkstemp(name_suffix, dir=temp_dir)
 		os.close(fd)  # we won't use it
-		with open(file_name, "rb") as music_file:
-			with open(tmpname, "wb") as tmpf:
-				tmpf.write(music_file.read())
-		file_name = tmpname
+		try:
+			with open(file_name, "rb") as music_file:
+				with open(tmpname, "wb") as tmpf:
+					tmpf.write(music_file.read())
+			return run_fpcalc(tmpname, temp_dir, recursive)
+		finally:
+			print("Removing %s" % tmpname)
+			os.remove(tmpname)
+
+	return run_fpcalc(file_name, temp_dir, recursive)
+
+def run_fpcalc(file_name, temp_dir, recursive):
+	"""Helper of fingerprint() for names fpcalc can handle."""
+	duration = fp = b""
+	bad = False
+	fpcalc = find_fpcalc_executable()
 
 	# Set fingerprint length to 120 seconds
 	# older fpcalc versions default to 60 seconds
@@ -186,10 +194,6 @@ def fingerprint(file_name, temp_dir=None, recursive=0):
 			print("Removing %s" % stripped)
 			os.remove(stripped)
 
-	if temp_cleanup:
-		print("Removing %s" % tmpname)
-		os.remove(tmpname)
-
 	if bad:
 		raise ValueError("Fingerprinting failed.")
 
-- 
2.43.0


From 9059812df111f0be27ab1d811594f86b6ac164a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 39/67] fix: an SRS name without a folder is in the current one

---
 resample/srs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index 52563c4..2fd0b0f 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -324,7 +324,7 @@ def main(argv=None, no_exit=False):
 				else:
 					samp = os.path.basename(sample_file).rsplit(".", 1)
 					srs_name = os.path.join(out_folder, samp[0] + ext)
-			srsdir = os.path.dirname(srs_name)
+			srsdir = os.path.dirname(srs_name) or os.curdir
 			if not os.path.exists(srsdir):
 				pexit(1, "Output directory does not exist: %s\n" %
 				         srsdir, False)
-- 
2.43.0


From 731e3af01a0e2869c007423ec942af0656e5063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:16 +0000
Subject: [PATCH 40/67] fix: a laced block can have one frame

---
 resample/ebml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resample/ebml.py b/resample/ebml.py
index 8737530..39dbea8 100644
--- a/resample/ebml.py
+++ b/resample/ebml.py
@@ -127,7 +127,7 @@ def GetBlockFrameLengths(lace_type, data_length, stream):
 		if lace_type == EbmlLaceType.NONE:
 			frame_sizes[i] = data_length
 		elif lace_type == EbmlLaceType.FIXED:
-			frame_sizes[i] = data_length // lace_frame_count
+			frame_sizes[i] = (data_length - bytes_consumed) // lace_frame_count
 		elif lace_type == EbmlLaceType.XIPH:
 			if (i < lace_frame_count - 1):
 				nextByte = 0xFF
@@ -142,7 +142,7 @@ def GetBlockFrameLengths(lace_type, data_length, stream):
 		else:  # EbmlLaceType.Ebml
 			bc = 0
 
-			if i == 0:
+			if i == 0 and lace_frame_count > 1:
 				frame_sizes[i], bc = GetEbmlUIntStream(stream)
 			elif i < lace_frame_count - 1:
 				# convert UInt to SInt then add to previous
-- 
2.43.0


From f01ad0804793e32ef8722c4d6a48a083eaee5d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:21 +0000
Subject: [PATCH 41/67] fix: APETAGEX is not the start of an ID3v1 tag

---
 resample/mp3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resample/mp3.py b/resample/mp3.py
index ce8576e..bce88b2 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -128,7 +128,11 @@ class Mp3Reader(object):
 		first = self._mp3_stream.read(3)
 		# (track signatures in SRS files can have these bytes too)
 		srs_end = self._end_srs_blocks(begin_main_content)
-		if first == b"TAG" and idv1_start_offset >= srs_end:
+		# (just like APE tags: APETAGEX)
+		self._mp3_stream.seek(max(0, idv1_start_offset - 3), os.SEEK_SET)
+		ape = self._mp3_stream.read(8) == b"APETAGEX"
+		if (first == b"TAG" and not ape and
+			idv1_start_offset >= srs_end):
 			idv1_block = Block(128, "TAG", idv1_start_offset)
 			self.blocks.append(idv1_block)
 			end_meta_data_offset = idv1_start_offset
-- 
2.43.0


From 117f1eb661c3e82c9852eb385b694ee14a65053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 42/67] fix: what is stored does not depend on the folders
 above the release

---
 bin/pyrescene.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 9af820f..50d9f6b 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -176,6 +176,11 @@ def get_files_list(release_dir, extension_list):
 		# TypeError: must be (buffer overflow), not str
 		return matches
 
+def path_in_release(path, reldir):
+	"""Path of a file that starts with the name of the release folder.
+	Where this folder is located must not influence the result."""
+	return os.path.relpath(path, os.path.dirname(os.path.abspath(reldir)))
+
 def get_sample_files(reldir):
 	sample_files = get_files_list(reldir, FileType.VideoExtensions)
 
@@ -184,7 +189,7 @@ def get_sample_files(reldir):
 	for sample in sample_files:
 		# sample folder or 'sample' in the name
 		# or a musicvideo file (SFV with same name)
-		if ("sample" in sample.lower() or
+		if ("sample" in path_in_release(sample, reldir).lower() or
 		    os.path.exists(sample[:-4] + ".sfv")):
 			result.append(sample)
 		else:
@@ -225,7 +230,7 @@ def get_proof_files(reldir, more_images=False):
 
 	result = filter_proof_image_files(
 		image_files, rar_files, reldir, more_images)
-	result += filter_proof_rar_files(rar_files)
+	result += filter_proof_rar_files(rar_files, reldir)
 
 	return result
 
@@ -234,7 +239,7 @@ def filter_proof_image_files(image_files, rar_files, reldir, more_images):
 	for proof in image_files:
 		# images in Sample, Proof and Cover(s) subdirs are ok
 		# others need to contain the word proof in their path
-		lproof = proof.lower()
+		lproof = path_in_release(proof, reldir).lower()
 		if ("proof" in lproof or "sample" in lproof or
 			os.sep + "cover" in lproof or
 			os.sep + "screenshots" in lproof or
@@ -338,12 +343,13 @@ def collect_known_good_filenames(reldir, rar_files):
 				 get_files(reldir, "*.m3u") + rar_files)
 	return (os.path.basename(good_name)[:-4] for good_name in checklist)
 
-def filter_proof_rar_files(rar_files):
+def filter_proof_rar_files(rar_files, reldir):
 	include_in_srr = []
 	for proof in rar_files:
 		# RAR file must contain image file
 		# Space.Dogs.3D.2010.GERMAN.1080p.BLURAY.x264-HDViSiON (bmp proof)
-		if "proof" in proof.lower() and has_stored_proof_ext(proof):
+		if ("proof" in path_in_release(proof, reldir).lower() and
+			has_stored_proof_ext(proof)):
 			include_in_srr.append(proof)
 	return include_in_srr
 
-- 
2.43.0


From a5b85d3f1547a3ab20b3e0de28f62bf8dc575901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 43/67] fix: samples with the same name do not overwrite each
 other's SRS

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 50d9f6b..a1126d4 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -980,7 +980,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 	# .mkv and .m2ts samples could have the same .srs name: prevent this
 	same_srs_name = []
 	rbase = lambda x: os.path.relpath(x, reldir).rsplit(".", 1)[0]
-	for (name, group) in itertools.groupby(map(rbase, media_files)):
+	for (name, group) in itertools.groupby(sorted(map(rbase, media_files))):
 		if len(list(group)) > 1:
 			same_srs_name.append(name)
 
-- 
2.43.0


From 8607df17ac7db2b708a90e9bd332e027407de5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 44/67] fix: a file can be skipped by both name and regex

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index a1126d4..aace468 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1239,7 +1239,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 		if os.path.basename(cfile) in options.skip_list:
 			print("Skipped over stored file: %s" % os.path.basename(cfile))
 			copied_files.remove(cfile)
-		if options.skip_regex:
+		elif options.skip_regex:
 			retestpath = os.path.relpath(cfile, working_dir)
 			if skipre.match(retestpath):
 				copied_files.remove(cfile)
-- 
2.43.0


From a9f17969d4280b1b7e58e6f61db8d9d7fbe495e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 45/67] fix: languages.diz has only the languages of its own
 vobsubs

---
 bin/pyrescene.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index aace468..381f815 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -689,6 +689,8 @@ def create_srr_for_subs(unrar, sfv, working_dir, release_dir):
 		pass  # the path already exists
 
 	idx_lang = os.path.join(working_dir, "languages.diz")
+	if os.path.isfile(idx_lang):
+		os.unlink(idx_lang)  # from the previous vobsubs
 
 	# recursively create SRR and extract RARs
 	def extract_and_create_srr(folder, srr_out=None, first_rars=None):
-- 
2.43.0


From fb4ffd24f1a03f8cce725c4bdca8d21f27bd8e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:36 +0000
Subject: [PATCH 46/67] fix: tracks with the same name on other discs

---
 bin/pyrescene.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 381f815..df75195 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1198,7 +1198,11 @@ def generate_srr(reldir, working_dir, options, mthread):
 		crclist = {}
 		for sfv in sfvs:
 			for sfvf in rescene.utility.parse_sfv_file(sfv)[0]:
-				crclist[sfvf.file_name.lower()] = sfvf.crc32
+				# other discs can have a track with the same name
+				track = os.path.join(os.path.dirname(sfv),
+					*re.split(r"[\\/]", sfvf.file_name))
+				track = os.path.relpath(track, reldir).lower()
+				crclist[track] = sfvf.crc32
 
 		to_remove = []
 		for stored_file in copied_files:
@@ -1208,7 +1212,10 @@ def generate_srr(reldir, working_dir, options, mthread):
 						file_type_info(stored_file).file_type)
 					srs_data, _tracks = sample.load_srs(stored_file)
 					# accept SRS if it isn't in the SFV
-					crc = int(crclist.get(srs_data.name.lower(), "-1"), 16)
+					track = os.path.join(os.path.dirname(
+						os.path.relpath(stored_file, working_dir)),
+						srs_data.name).lower()
+					crc = int(crclist.get(track, "-1"), 16)
 					if srs_data.crc32 != crc and crc != -1:
 						to_remove.append(stored_file)
 						logging.critical("%s: SFV verification failed for %s."
-- 
2.43.0


From 4c2bee4194bb50915b836787049fee2b40b2c815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 47/67] fix: vob sample without SRS file

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index df75195..a226bb1 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1077,7 +1077,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 			sys.stderr = original_stderr
 
 		# create srr if it was a rared vob
-		if srs_result and sample.endswith(".vob"):
+		if srs_result in copied_files and sample.endswith(".vob"):
 			# can be useful to show the actual RAR that was used,
 			# based on the info stored in the archive end block
 			sinfo = sample_class_factory(file_type_info(srs_result).file_type)
-- 
2.43.0


From ced5d7d3e300c23950203da1d8bd13f5784e4d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 48/67] fix: no half-made file with the srr extension

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 3ce9800..e66a7f1 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -360,7 +360,7 @@ def remove_stored_files(srr_file, store_files):
 		raise NotSrrFile("Not an SRR file.")
 	
 	# create a temporarily file
-	tmpfd, tmpname = mkstemp(prefix="remove_", suffix=".srr", 
+	tmpfd, tmpname = mkstemp(prefix="remove_", suffix=".tmp", 
 							 dir=os.path.dirname(srr_file))
 	tmpfile = os.fdopen(tmpfd, "wb")
 	
-- 
2.43.0


From 132fcc815048d0fc46bf23d5593ef6b02bc76b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 49/67] fix: a release that fails leaves nothing and does not
 stop the others

---
 bin/pyrescene.py | 81 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 68 insertions(+), 13 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index a226bb1..843006f 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -861,7 +861,61 @@ def mk_long_dir(destination):
 				# happens when there is a file with the same name as the dir
 				print(e)
 
-def generate_srr(reldir, working_dir, options, mthread):
+def process_release(reldir, working_dir, options, mthread):
+	"""Creates the SRR of one release. Whatever goes wrong with it, there
+	is nothing left and the other releases can still be processed.
+	Returns False if there is no SRR created."""
+	if not os.path.isdir(reldir):
+		print("Not a directory: %s" % encodeerrors(reldir, sys.stdout))
+		return False
+
+	tmp_srr_name = create_temp_file_name(get_srr_path(reldir, options))
+	original_stderr = sys.stderr
+	success = False
+	try:
+		try:
+			success = generate_srr(reldir, working_dir, options, mthread,
+			                       tmp_srr_name)
+		finally:
+			# output redirected while creating an SRS file
+			if sys.stderr is not original_stderr:
+				sys.stderr.close()
+				sys.stderr = original_stderr
+	except FileNotFound:
+		pass
+	except ExecutableNotFound:
+		raise
+	except AssertionError as err:
+		mthread.wait_for_output()
+		print(str(err))
+		print("Please report me this problem!")
+		print("https://bitbucket.org/Gfy/pyrescene/issues")
+	except Exception as err:
+		mthread.wait_for_output()
+		print(encodeerrors("Unexpected error: %r" % err, sys.stdout))
+		logging.error("%s: %r" % (reldir, err))
+	finally:
+		if not success:
+			try:
+				os.unlink(tmp_srr_name)
+			except OSError:
+				pass  # not created or already removed
+			try:
+				empty_folder(working_dir)
+			except OSError:
+				pass  # not possible: next release gets a new folder
+	return success
+
+def get_srr_path(reldir, options):
+	"""Location of the SRR file to create for the release."""
+	relname = os.path.split(reldir)[1]
+	if options.srr_in_reldir:
+		srr_directory = reldir
+	else:
+		srr_directory = options.output_dir
+	return os.path.join(srr_directory, relname + ".srr")
+
+def generate_srr(reldir, working_dir, options, mthread, tmp_srr_name):
 	if os.listdir(working_dir) != []:
 		logging.warning("Failed to clean temp dir: {0}".format(working_dir))
 		# Cleaning can fail with PyPy and long dirs: create new working dir
@@ -875,12 +929,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 		print(epath)  # chars like \u2013 possible
 		logging.warning("Unexpected character in path: {0}".format(epath))
 	relname = os.path.split(reldir)[1]
-	if options.srr_in_reldir:
-		srr_directory = reldir
-	else:
-		srr_directory = options.output_dir
-	srr = os.path.join(srr_directory, relname + ".srr")
-	tmp_srr_name = create_temp_file_name(srr)
+	srr = get_srr_path(reldir, options)
 
 	# speedup: don't do stuff when we don't overwrite an existing SRR anyway
 	if options.always_no and os.path.exists(srr):
@@ -1650,6 +1699,9 @@ def main(argv=None):
 		logging.basicConfig(filename=report_fn, level=logging.INFO,
 		                    format="%(asctime)s %(levelname)s:%(message)s",
 		                    datefmt='%H:%M:%S')
+	else:
+		# not the first time when stderr is temporarily a file
+		logging.basicConfig()
 
 	# create temporary working dir
 	if options.temp_dir and len(options.temp_dir):
@@ -1731,17 +1783,20 @@ def main(argv=None):
 		for reldir in indirs:
 			reldir = os.path.abspath(reldir)
 			if not options.recursive:
-				result = generate_srr(reldir, working_dir, options, mthread)
+				result = process_release(reldir, working_dir,
+				                         options, mthread)
 				if not result:
 					missing.append(reldir)
 					logging.warning("%s: SRR could not be created." % reldir)
 			else:
+				if not os.path.isdir(reldir):
+					print("Not a directory: %s" %
+					      encodeerrors(reldir, sys.stdout))
+					missing.append(reldir)
+					continue
 				for release_dir in get_release_directories(reldir):
-					try:
-						result = generate_srr(release_dir, working_dir,
-						                      options, mthread)
-					except FileNotFound:
-						result = False
+					result = process_release(release_dir, working_dir,
+					                         options, mthread)
 					if not result:
 						missing.append(release_dir)
 						logging.warning("%s: SRR could not be created." %
-- 
2.43.0


From 6418ef2d30346db4f0c69154dd316c8c7885709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 50/67] fix: a file that can not be read completely is not
 stored

---
 bin/pyrescene.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 843006f..09e8a51 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -646,6 +646,9 @@ def copy_to_working_dir(working_dir, release_dir, copy_file):
 				log = True
 		if log:
 			logging.error("Failed to copy {0}: {1}".format(copy_file, e))
+			# do not store the part that could be read
+			if os.path.isfile(dest_file):
+				os.unlink(dest_file)
 
 	return dest_file
 
-- 
2.43.0


From cc52b5518b1874dfbe7133d462db0ffe34f2b489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:26 +0000
Subject: [PATCH 51/67] fix: a RIFF wrapped .MP3 file is a music file too

---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 66cb069..73cb7c3 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -190,7 +190,7 @@ def file_type_info(ifile):
 	elif marker.startswith(MARKER_AVI):
 		# Some old .mp3 files use the RIFF container too
 		# e.g. (dj_tiesto_presents_allure)-we_ran_at_dawn_vinyl_djnl-bmi
-		if media_name.endswith(".mp3"):
+		if media_name.lower().endswith(".mp3"):
 			return FileType(FileType.MP3, archived_file_name)
 		return FileType(FileType.AVI, archived_file_name)
 	if marker[4:].startswith(MARKER_MP4) or marker.startswith(MARKER_MP4_3GP):
-- 
2.43.0


From 314c82087662a3ea99a726958f5a587c9826ebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:31 +0000
Subject: [PATCH 52/67] fix: retagging reports its result and leaves other
 files alone

---
 bin/retag.py | 103 +++++++++++++++++++++++++++------------------------
 1 file changed, 55 insertions(+), 48 deletions(-)

diff --git a/bin/retag.py b/bin/retag.py
index 94a022b..65a64fc 100644
--- a/bin/retag.py
+++ b/bin/retag.py
@@ -31,6 +31,8 @@ This tool fixes the tags of music files.
 from optparse import OptionParser
 import sys
 import os
+import shutil
+import tempfile
 
 try:
 	import _preamble
@@ -72,30 +74,33 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 			print("Extracting %s" % sfile)
 			rescene.extract_files(srr_file, output_dir, True, sfile)
 
-	# fix music files that can be found
-	for srs in srs_files:
-		print("Using %s" % srs)
-		(out, ok) = rescene.extract_files(srr_file, output_dir, True, srs)[0]
-		if not ok:
-			# file extraction failed or existing .srs not overwritten
-			print("Attempt to fix track aborted.")
-			continue
-		try:
-			success = fix_tagging(out, output_dir, input_dir, always_yes)
-			if success:
-				successes += 1
-			else:
-				# .srs is not a music file
-				skips += 1
-		except ValueError:
-			# pexit() srs.py only throws ValueError
-			failures += 1
-		except Exception as e:
-			print("Unexpected error!")
-			print(str(e))
-			failures += 1
-		finally:
-			os.remove(out)
+	# the SRS files are only needed during the process: a temporary directory
+	# keeps the ones already in the output directory out of harm's way
+	srs_dir = tempfile.mkdtemp(prefix="retag-")
+	try:
+		# fix music files that can be found
+		for srs in srs_files:
+			print("Using %s" % srs)
+			try:
+				# other folders can have a .srs file with the same name
+				(out, _ok) = rescene.extract_files(
+					srr_file, srs_dir, True, matcher=lambda x: x == srs)[0]
+				success = fix_tagging(out, srs_dir, output_dir,
+				                      input_dir, always_yes)
+				if success:
+					successes += 1
+				else:
+					# .srs is not a music file
+					skips += 1
+			except ValueError:
+				# pexit() srs.py only throws ValueError
+				failures += 1
+			except Exception as e:
+				print("Unexpected error!")
+				print(str(e))
+				failures += 1
+	finally:
+		shutil.rmtree(srs_dir, ignore_errors=True)
 
 	print("\n\n%d/%d files succeeded. %d failure%s. %s" % (
 		successes, failures + successes, failures,
@@ -103,9 +108,12 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 		"" if not skips else "%s skip%s." %
 	    	(skips, "" if skips == 1 else "s")))
 
-def fix_tagging(srs, output_dir, input_dir, always_yes):
+	return failures == 0
+
+def fix_tagging(srs, srs_dir, output_dir, input_dir, always_yes):
 	"""Fixes the meta data tags of a music track.
 	srs: srs file location
+	srs_dir: root dir of the extracted srs files
 	output_dir: root dir of the fixed release
 	input_dir: location to find the track to be fixed
 	always_yes: when to always confirm replacements
@@ -115,18 +123,18 @@ def fix_tagging(srs, output_dir, input_dir, always_yes):
 	except NoTaggingAvailable as not_music:
 		print("")
 		print(str(not_music))
-		os.remove(srs)
 		return False
 
 	original_name = srs_info.sample_name
 	print("Fixing %s" % original_name)
 
-	musicf = join_fix_case(input_dir, original_name)
-	out_subfolder = os.path.dirname(os.path.relpath(srs, output_dir))
+	# other discs can have a track with the same name: not the root dir first
+	out_subfolder = os.path.dirname(os.path.relpath(srs, srs_dir))
+	srr_path = out_subfolder.split(os.sep)
+	srr_path.append(original_name)
+	musicf = join_fix_case(input_dir, *srr_path)
 	if not os.path.isfile(musicf):
-		srr_path = out_subfolder.split("/")
-		srr_path.append(original_name)
-		musicf = join_fix_case(input_dir, *srr_path)
+		musicf = join_fix_case(input_dir, original_name)
 		if not os.path.isfile(musicf):
 			print("Track not found")
 			raise ValueError("not found")
@@ -159,23 +167,22 @@ def join_fix_case(good_base, *parts):
 	if os.path.exists(joined_input):
 		return joined_input
 
-	corrected_path = good_base
-	for p in parts:
-		if not os.path.exists(os.path.join(corrected_path, p)):
-			listing = os.listdir(corrected_path)
-			cilisting = [l.lower() for l in listing]
-			cip = p.lower()
-			if cip in cilisting:
-				# get real folder name
-				l = listing[cilisting.index(cip)]
-				corrected_path = os.path.join(corrected_path, l)
-			else:
-				# file or path does not exist
-				return ""
-		else:
-			corrected_path = os.path.join(corrected_path, p)
-
-	return corrected_path
+	# there can be more than one match when only the capitals differ
+	def search(base, names):
+		if not names:
+			return base
+		if os.path.isdir(base):
+			found = [x for x in os.listdir(base)
+			         if x.lower() == names[0].lower()]
+			# the exact name first
+			found.sort(key=lambda x: (x != names[0], x))
+			for name in found:
+				path = search(os.path.join(base, name), names[1:])
+				if path:
+					return path
+		return ""
+
+	return search(good_base, [p for p in parts if p])
 
 def main(argv=None):
 	parser = OptionParser(
-- 
2.43.0


From 9c63e31fa982cb310ce3c4ad854797248403c59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:36 +0000
Subject: [PATCH 53/67] fix: yEnc names and escapes are decoded completely

---
 usenet/yenc.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/usenet/yenc.py b/usenet/yenc.py
index 7116e4c..3b64345 100644
--- a/usenet/yenc.py
+++ b/usenet/yenc.py
@@ -53,6 +53,7 @@ class YencException(Exception):
 
 #------------------------------------------------------------------------------
 
+ESCAPE_RE = re.compile(br'=(.)', re.DOTALL)
 YDEC_TRANS = bytearray(range(256 - 42, 256)) + bytearray(range(256 - 42))
 
 def decode(data, seg_part=False, ignore_crc=False):
@@ -93,10 +94,9 @@ def decode(data, seg_part=False, ignore_crc=False):
 				partcrc = (crc ^ -1) & 0xFFFFFFFF
 			else:
 				data = b''.join(data)
-				for i in (0, 9, 10, 13, 27, 32, 46, 61):
-					j = b'=' + bytearray((i + 64,))
-					i = bytearray((i,))
-					data = data.replace(j, i)
+				# any character can be escaped
+				data = ESCAPE_RE.sub(lambda esc:
+					bytes(bytearray(((ord(esc.group(1)) - 64) & 255,))), data)
 				decoded_data = data.translate(YDEC_TRANS)
 				if not seg_part:
 					crc = crc32(decoded_data)
@@ -162,13 +162,11 @@ def yCheck(data):
 	for i in range(10):
 		try:
 			if data[i].startswith(b'=ybegin '):
-				splits = 3
-				if data[i].find(b' part=') > 0:
-					splits += 1
-				if data[i].find(b' total=') > 0:
-					splits += 1
-
-				ybegin = ySplit(data[i], splits)
+				# everything after name= is the name, whatever it contains
+				fields, sep, name = data[i].partition(b' name=')
+				ybegin = ySplit(fields)
+				if sep:
+					ybegin[b'name'] = name.strip()
 
 				if data[i + 1].startswith(b'=ypart '):
 					ypart = ySplit(data[i + 1])
-- 
2.43.0


From c19a671d3ff096ff891b93b15033f422cac2273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:41 +0000
Subject: [PATCH 54/67] fix: the expat NZB parser keeps all text of an element

---
 usenet/pynzb/expat_nzb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/usenet/pynzb/expat_nzb.py b/usenet/pynzb/expat_nzb.py
index 7637a17..b1ccb31 100644
--- a/usenet/pynzb/expat_nzb.py
+++ b/usenet/pynzb/expat_nzb.py
@@ -4,6 +4,7 @@ from pynzb.base import BaseNZBParser, NZBFile, NZBSegment
 
 class ExpatNZBParser(BaseNZBParser):
     def start_element(self, name, attrs):
+        self.current_data = ''
         if name == 'file':
             self.current_file = NZBFile(
                 poster=attrs['poster'],
@@ -26,10 +27,12 @@ class ExpatNZBParser(BaseNZBParser):
             self.current_file.add_segment(self.current_segment)
 
     def char_data(self, data):
-        self.current_data = data
+        # the text of an element can be given in several pieces
+        self.current_data += data
 
     def parse(self, xml):
         self.files = []
+        self.current_data = ''
         parser = expat.ParserCreate()
         parser.StartElementHandler = self.start_element
         parser.EndElementHandler = self.end_element
-- 
2.43.0


From b5fa97ee955a949912139607708b6c4291ed5848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:14 +0000
Subject: [PATCH 55/67] fix: merging and splitting NZB files works and loses no
 files

---
 usenet/nzb_merge.py | 10 ++++------
 usenet/nzb_split.py | 42 ++++++++++++------------------------------
 usenet/nzb_utils.py | 19 +++++++++++++++++++
 3 files changed, 35 insertions(+), 36 deletions(-)

diff --git a/usenet/nzb_merge.py b/usenet/nzb_merge.py
index ff4fdfa..69173f0 100644
--- a/usenet/nzb_merge.py
+++ b/usenet/nzb_merge.py
@@ -38,14 +38,12 @@ def merge_nzbs(nzbdir):
 		for nfile in nzb_files:
 			read_nzbs[nfile] = nzb_utils.read_nzb(nfile)
 
-		doc = nzb_utils.empty_nzb_document()
+		all_files = []
 		for nzb in nzb_files:
-			for nfile in read_nzbs[nzb]:
-				nzb_utils.add_file(doc, nfile)
+			all_files.extend(read_nzbs[nzb])
 
 		# shortest directory name we will overwrite
-		with open(nzb_files[0], "w") as nzb:
-			nzb.write(nzb_utils.get_xml(doc))
+		nzb_utils.write_nzb(nzb_files[0], all_files)
 
 		# remove other nzb files
 		for nzbfile in nzb_files[1:]:
@@ -55,7 +53,7 @@ def merge_nzbs(nzbdir):
 def main(options, args):
 	main_dir = os.path.abspath(args[0])
 	for ldir in os.listdir(main_dir):
-		if os.path.isdir(ldir):
+		if os.path.isdir(os.path.join(main_dir, ldir)):
 			merge_nzbs(os.path.join(main_dir, ldir))
 
 if __name__ == '__main__':
diff --git a/usenet/nzb_split.py b/usenet/nzb_split.py
index 550fca7..d28698f 100644
--- a/usenet/nzb_split.py
+++ b/usenet/nzb_split.py
@@ -187,26 +187,9 @@ def main(options, args):
 			rel = rel.strip("_")
 
 			if rel != current_rel:
-				try:
-					new = os.path.join(output_dir,
-					              current_rel.replace('"', '') + ".nzb")
-					exists = os.path.exists(new)
-					if current_rel and not exists:
-						with open(new, "w") as nzb:
-							doc = nzb_utils.empty_nzb_document()
-							for rfile in reldict.pop(current_rel):
-								nzb_utils.add_file(doc, rfile)
-							nzb.write(nzb_utils.get_xml(doc))
-					elif exists:
-						doc = nzb_utils.empty_nzb_document()
-						for nzbfile in nzb_utils.read_nzb(new):
-							nzb_utils.add_file(doc, nzbfile)
-						with open(new, "w") as nzb:
-							for rfile in reldict.pop(current_rel):
-								nzb_utils.add_file(doc, rfile)
-							nzb.write(nzb_utils.get_xml(doc))
-				except KeyError:
-					pass
+				if current_rel in reldict:
+					write_release(output_dir, current_rel,
+					              reldict.pop(current_rel))
 				current_rel = rel
 
 			files = reldict.setdefault(rel, [])
@@ -216,16 +199,15 @@ def main(options, args):
 			print("Failed: %s" % nzb_file.subject)
 
 	# write out last match
-	try:
-		new = os.path.join(output_dir,
-		                   current_rel.replace('"', '') + ".nzb")
-		with open(new, "w") as nzb:
-			doc = nzb_utils.empty_nzb_document()
-			for rfile in reldict.pop(current_rel):
-				nzb_utils.add_file(doc, rfile)
-			nzb.write(nzb_utils.get_xml(doc))
-	except KeyError:
-		pass
+	if current_rel in reldict:
+		write_release(output_dir, current_rel, reldict.pop(current_rel))
+
+def write_release(output_dir, release, files):
+	""" Adds the files when there already is a NZB file for the release. """
+	new = os.path.join(output_dir, release.replace('"', '') + ".nzb")
+	if os.path.exists(new):
+		files = nzb_utils.read_nzb(new) + files
+	nzb_utils.write_nzb(new, files)
 
 def grab_base_name(filename):
 	# "invandraren-walla25.sfv" (1/1)
diff --git a/usenet/nzb_utils.py b/usenet/nzb_utils.py
index dcc65c2..9ba1227 100644
--- a/usenet/nzb_utils.py
+++ b/usenet/nzb_utils.py
@@ -206,6 +206,25 @@ def add_file(document, nzb_file):
 	top_element.appendChild(file_element)
 	return document
 
+def write_nzb(nzb_file, files):
+	""" Writes a NZB file with the given files. An already existing NZB file
+	is only replaced when all its data could be written. """
+	document = empty_nzb_document()
+	for nfile in files:
+		add_file(document, nfile)
+
+	tmp_file = nzb_file + ".tmp"
+	try:
+		with open(tmp_file, "wb") as nzb:
+			nzb.write(get_xml(document))
+		if os.name == "nt" and os.path.exists(nzb_file):
+			os.remove(nzb_file)
+		os.rename(tmp_file, nzb_file)
+	except:
+		if os.path.exists(tmp_file):
+			os.remove(tmp_file)
+		raise
+
 def list_filenames(nzb_file):
 	return [(parse_name(f.subject), f.date) for f in read_nzb(nzb_file)]
 
-- 
2.43.0


From ef27028c94471b074d2e0e7f12842c3a62d7daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:36 +0000
Subject: [PATCH 56/67] fix: fix: find every release when names start the same
 and leave no temporary folder behind

---
 bin/pyrescene.py | 64 +++++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 09e8a51..ffaf703 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1357,13 +1357,12 @@ def get_release_directories(path):
 			print(dirpath)
 			print(dirnames)
 			print(filenames)
-		if (last_release in dirpath and last_release and
-			# keep release names that start with the same string,
-			# so that they won't be skipped
-			# e.g.  ReleaseName-CUTG
-			#       ReleaseName-CUTGRP
-			# (subdirs have a separator more)
-			dirpath.rfind(os.sep) != last_release.rfind(os.sep)):
+		# keep release names that start with the same string,
+		# so that they (or their subfolders) won't be skipped
+		# e.g.  ReleaseName-CUTG
+		#       ReleaseName-CUTGRP
+		# (subdirs have a separator more)
+		if last_release and dirpath.startswith(last_release + os.sep):
 			continue  # subfolders of a found release
 
 		if is_release(dirpath, dirnames, filenames):
@@ -1416,7 +1415,7 @@ def is_release(dirpath, dirnames=None, filenames=None):
 			elif NO_HYPHEN.match(dirname):
 				# old MP3 release with custom folders
 				custom_dirs_old_music.append(dirname)
-			elif re.match(r"CD(.?|_-_)\d{1-2}.+", dirname, re.IGNORECASE):
+			elif re.match(r"CD(.?|_-_)\d{1,2}.+", dirname, re.IGNORECASE):
 				# Various_artists_-_deiner_tracks_vol2_2cd-2000-nbd
 				# CD1-Dj_Membrain and CD2-Dj_Sepalot
 				custom_dirs_old_music.append(dirname)
@@ -1706,6 +1705,29 @@ def main(argv=None):
 		# not the first time when stderr is temporarily a file
 		logging.basicConfig()
 
+	if not options.skip_list:
+		options.skip_list = []
+	if options.skip_file:
+		if not os.path.isfile(options.skip_file):
+			print("The list of files to skip, could not be found.")
+			return 1  # failure
+		with open(options.skip_file, 'r') as skiplist:
+			options.skip_list = skiplist.read().splitlines()
+	if options.skip_regex:
+		global skipre
+		try:
+			skipre = re.compile(options.skip_regex, re.IGNORECASE)
+			if skipre.match(r"test.sfv"):
+				msg = "Not a good idea to ignore SFV files in the regex!"
+				logging.warning(msg)
+		except Exception as e:
+			# use --skip-regex "*" to trigger this
+			print("Unrecognized regular expression: %s" % e)
+			print("Some examples: (case always ignored)")
+			print(r"\t^.*/sitename\.nfo$")
+			print(r"\t^sample/.*\._s.jpg$")
+			return 1  # failure
+
 	# create temporary working dir
 	if options.temp_dir and len(options.temp_dir):
 		options.temp_dir = os.path.abspath(options.temp_dir)
@@ -1728,6 +1750,7 @@ def main(argv=None):
 		unrar = get_unrar()
 		if not unrar_is_available():
 			print("UnRAR is required for vobsub .srr creation.")
+			shutil.rmtree(working_dir, ignore_errors=True)
 			return 1
 		sfv = os.path.abspath(options.vobsubs)
 		try:
@@ -1750,29 +1773,8 @@ def main(argv=None):
 			# No RAR5 support yet
 			logging.warning("{0}: {1}".format(str(e), sfv))
 			return 1  # failure (no .srr created)
-
-	if not options.skip_list:
-		options.skip_list = []
-	if options.skip_file:
-		if not os.path.isfile(options.skip_file):
-			print("The list of files to skip, could not be found.")
-			return 1  # failure
-		with open(options.skip_file, 'r') as skiplist:
-			options.skip_list = skiplist.read().splitlines()
-	if options.skip_regex:
-		global skipre
-		try:
-			skipre = re.compile(options.skip_regex, re.IGNORECASE)
-			if skipre.match(r"test.sfv"):
-				msg = "Not a good idea to ignore SFV files in the regex!"
-				logging.warning(msg)
-		except Exception as e:
-			# use --skip-regex "*" to trigger this
-			print("Unrecognized regular expression: %s" % e)
-			print("Some examples: (case always ignored)")
-			print(r"\t^.*/sitename\.nfo$")
-			print(r"\t^sample/.*\._s.jpg$")
-			return 1  # failure
+		finally:
+			shutil.rmtree(working_dir, ignore_errors=True)
 
 	drive_letters = []
 	aborted = False
-- 
2.43.0


From f36aa34a03fe3f31cba05232da9e770f723da91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:07 +0000
Subject: [PATCH 57/67] fix: SRR from Usenet: wrong or no data for posted files

---
 usenet/srr_usenet.py | 37 ++++++++++++++++++++++++++++++++-----
 usenet/yenc.py       | 12 +++++++++---
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 113f135..cdb6d53 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -293,7 +293,8 @@ class NNTP(nntplib.NNTP):
 		return line
 
 def _decode_yenc(data, partial_data=False, crc_behaviour=IGNORE_CRC_ERRORS):
-	return yenc.decode(data, partial_data, crc_behaviour)
+	# nntplib has already removed the extra dot of lines that start with one
+	return yenc.decode(data, partial_data, crc_behaviour, dot_stuffed=False)
 
 class IncompleteNzb(Exception):
 	pass
@@ -309,6 +310,7 @@ class NNTPFile(io.IOBase):
 		self.nzb_file = nzb_file
 		self.segments = {}
 		self.data = {}  # the actual data of the segment
+		self.complete = set()  # segments that were not grabbed in part
 		self.group = False  # Send GROUP command before grabbing segment
 
 		self.nb_segments = 0  # highest number defined in the NZB
@@ -352,6 +354,7 @@ class NNTPFile(io.IOBase):
 		#    => it does for PS3 releases with hundreds of separate files
 
 		self.data = {}
+		self.complete = set()
 		self._file_size = 0
 		self._current_position = 0
 		self._segment_size_first = 0
@@ -558,6 +561,10 @@ class NNTPFile(io.IOBase):
 
 		self.segments[pnumber].decoded_size = dpart['part_size']
 		self.data[pnumber] = dpart['data']
+		if nb_lines > 1:
+			self.complete.discard(pnumber)
+		else:
+			self.complete.add(pnumber)
 
 	def tell(self):
 		"""Return the current stream position."""
@@ -744,6 +751,14 @@ class NNTPFile(io.IOBase):
 			# but it's a good enough heuristic
 			btype = get_blocktype_basic_header(offset)
 			return is_rar_block(btype)
+		def is_damaged(seg_nb):
+			# actual size is different than the advertised size
+			if seg_nb not in self.complete:
+				try:
+					self.grab_segment(self.segments[seg_nb].message_id)
+				except (nntplib.NNTPError, yenc.YencException) as error:
+					print(error)
+			return len(self.data[seg_nb]) != self.segments[seg_nb].decoded_size
 		def do_magic(spart_offset, seg_nb, amount=7):
 			"""Searches for RAR header in corrupt data stream. 
 			spart_offset: offset in the segment where we will have
@@ -755,6 +770,9 @@ class NNTPFile(io.IOBase):
 			# we can go 6 bytes back (and forward) "without problem"
 			if self.new_server and amount == 7:
 				amount = 19
+			if not is_rar_header(spart_offset) and not is_damaged(seg_nb):
+				# the data is right: we are not reading a RAR header
+				return spart_offset
 			test_range = [0] + list(range(-1, -amount, -1)) + list(range(1, amount))
 
 			for hoffset in test_range:
@@ -812,8 +830,7 @@ class NNTPFile(io.IOBase):
 					lines = 0  # 'Lines: 6103'
 					try:  # Python 3
 						# [resp, ArticleInfo(number, message_id, lines)]
-						[_resp, [_article_number, _msg_id, lines]] = result
-						headers = lines
+						[_resp, [_article_number, _msg_id, headers]] = result
 					except ValueError:  # Python < 3
 						headers = result[3]
 					for hline in headers:
@@ -900,6 +917,16 @@ class NNTPFile(io.IOBase):
 
 		odiff = orig_spart_offset - spart_offset  # 0 if nothing is wrong
 
+		# segments of which only the start was needed before
+		# (the CRC is only checked when everything is there)
+		for i in range(spart_nb, end_part + 1):
+			if i not in self.complete and (not self.is_rar or
+				(i == spart_nb and spart_offset + size > len(self.data[i]))
+				or spart_nb < i < end_part):
+				print("More data needed! Grabbing... (segment %d)" % i)
+				sys.stdout.flush()
+				self.grab_segment(self.segments[i].message_id)
+
 		# check the last segment too
 		data_size = len(self.data[end_part]) + odiff
 		if data_size < end_offset:
@@ -1050,13 +1077,13 @@ class NNTPFile(io.IOBase):
 							if self.group:
 								for group in self.nzb_file.groups:
 									try:
-										self.server.group(group)
+										s.group(group)
 										continue
 									except nntplib.NNTPTemporaryError as error:
 										pass
 										# print(error)
 
-							(resp, _nr, _id) = self.server.stat("<%s>" %
+							(resp, _nr, _id) = s.stat("<%s>" %
 								self.segments[self.nb_segments].message_id)
 							if resp.startswith("223 "):
 								s.quit()
diff --git a/usenet/yenc.py b/usenet/yenc.py
index 3b64345..cda6a59 100644
--- a/usenet/yenc.py
+++ b/usenet/yenc.py
@@ -56,8 +56,11 @@ class YencException(Exception):
 ESCAPE_RE = re.compile(br'=(.)', re.DOTALL)
 YDEC_TRANS = bytearray(range(256 - 42, 256)) + bytearray(range(256 - 42))
 
-def decode(data, seg_part=False, ignore_crc=False):
-	data = strip(data)
+def decode(data, seg_part=False, ignore_crc=False, dot_stuffed=True):
+	"""data: list of the lines of the article
+	dot_stuffed: False when the NNTP client has already removed the dots that
+	             were added to the lines for sending"""
+	data = strip(data, dot_stuffed)
 	# No point in continuing if we don't have any data left
 	if data:
 		yenc, data = yCheck(data)
@@ -210,13 +213,16 @@ def ySplit(line, splits=None):
 
 	return fields
 
-def strip(data):
+def strip(data, dot_stuffed=True):
 	while data and not data[0]:
 		data.pop(0)
 
 	while data and not data[-1]:
 		data.pop()
 
+	if not dot_stuffed:
+		return data
+
 	# http://www.yenc.org/develop.htm
 	# the NNTP-protocol requires to double a dot in the first colum
 	# when a line is sent - and to detect a double dot (and remove one of them)
-- 
2.43.0


From 7c7ecf3805f94c59fad5abf49fc35209e90337b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:39 +0000
Subject: [PATCH 58/67] fix: srr_sort: lost and unlisted SRR files

---
 bin/srr_sort.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/bin/srr_sort.py b/bin/srr_sort.py
index b89efff..207f25d 100644
--- a/bin/srr_sort.py
+++ b/bin/srr_sort.py
@@ -31,6 +31,7 @@ import sys
 import os
 import glob
 import re
+import shutil
 
 try:
 	import _preamble
@@ -54,10 +55,10 @@ def check_empty(srr_file):
 	return True
 
 def check_image(srr_file, noproof):
-	images = (".jpg", ".png", ".bmp", ".gif", "jpeg")
+	images = (".jpg", ".png", ".bmp", ".gif", ".jpeg")
 	for block in RarReader(srr_file):
 		if (block.rawtype == BlockType.SrrStoredFile and
-			os.path.splitext(block.file_name)[1] in images):
+			os.path.splitext(block.file_name)[1].lower() in images):
 			if noproof and "proof" in block.file_name.lower():
 				return False
 			return True
@@ -73,8 +74,8 @@ def check_repack(srr_file):
 	return False
 
 def check_nfos(srr_file):
+	nfo_count = 0
 	for block in RarReader(srr_file):
-		nfo_count = 0
 		if (block.rawtype == BlockType.SrrStoredFile and
 			block.file_name[-4:].lower() == ".nfo"):
 			nfo_count += 1
@@ -129,8 +130,10 @@ def check(srr_file):
 			if options.multiple:
 				sets = []
 				for f in info["rar_files"]:
-					ms = "^(.*?)(.part\d+.rar|(.[rstuv]\d\d|.rar))$"
-					base = re.match(ms, f, re.IGNORECASE).group(1)
+					ms = r"^(.*?)(\.part\d+\.rar|(\.[rstuv]\d\d|\.rar))$"
+					match = re.match(ms, f, re.IGNORECASE)
+					# .001, .002,... otherwise
+					base = match.group(1) if match else os.path.splitext(f)[0]
 					if not base in sets:
 						sets.append(base)
 				result |= len(info["archived_files"]) > len(sets)
@@ -172,10 +175,17 @@ def check(srr_file):
 		if options.txt:
 			result |= check_for_ext(srr_file, ".txt")
 		if result and options.output_dir:
-			print("Moving %s." % srr_file)
 			srr_name = os.path.basename(srr_file)
-			# move the SRR to the given directory
-			os.renames(srr_file, os.path.join(options.output_dir, srr_name))
+			new_file = os.path.join(options.output_dir, srr_name)
+			if os.path.exists(new_file):
+				print("Not moving %s: %s already exists." %
+				      (srr_file, new_file))
+			else:
+				print("Moving %s." % srr_file)
+				# move the SRR to the given directory
+				if not os.path.isdir(options.output_dir):
+					os.makedirs(options.output_dir)
+				shutil.move(srr_file, new_file)
 		if result:
 			print(os.path.basename(srr_file))
 	except (EnvironmentError, Exception) as err:
-- 
2.43.0


From 8853a6f8ce2a399985fabd9f0711f6f1a73a045c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:45 +0000
Subject: [PATCH 59/67] fix: srs_batch: option -n

---
 bin/srs_batch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bin/srs_batch.py b/bin/srs_batch.py
index 97fbbe2..7c458c7 100644
--- a/bin/srs_batch.py
+++ b/bin/srs_batch.py
@@ -57,6 +57,11 @@ def create_srs(sample_dir, sample_file, output_dir, path, keep):
 	dest_dir = os.path.join(output_dir, path)
 	sample = os.path.join(sample_dir, sample_file)
 
+	srs_file = os.path.splitext(os.path.join(dest_dir, sample_file))[0] + ".srs"
+	if keep and os.path.exists(srs_file):
+		print("Not overwriting %s" % srs_file)
+		return
+
 	if not os.path.isdir(dest_dir):
 		os.makedirs(dest_dir)
 
@@ -65,8 +70,7 @@ def create_srs(sample_dir, sample_file, output_dir, path, keep):
 	sys.stderr = open(txt_error_file, "wt")
 	keep_txt = False
 	try:
-		overwrite_param = "" if keep else "-y"
-		srsmain([sample, overwrite_param, "-o", dest_dir], True)
+		srsmain([sample, "-y", "-o", dest_dir], True)
 	except ValueError:
 		keep_txt = True
 
-- 
2.43.0


From cde6c012db78283aa72c5c57e82b906a8d1e8b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:50 +0000
Subject: [PATCH 60/67] fix: srs_bad and srr_extract_srs: SRS files that were
 not looked at

---
 bin/srr_extract_srs.py | 2 +-
 bin/srs_bad.py         | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/bin/srr_extract_srs.py b/bin/srr_extract_srs.py
index 8509fec..cc59ec8 100644
--- a/bin/srr_extract_srs.py
+++ b/bin/srr_extract_srs.py
@@ -48,7 +48,7 @@ def main(options, args):
 
 	srs_files = []
 	for sfile in rescene.info(srr)["stored_files"].keys():
-		if sfile.endswith(".srs"):
+		if sfile.lower().endswith(".srs"):
 			srs_files.append(sfile)
 
 	for srs in srs_files:
diff --git a/bin/srs_bad.py b/bin/srs_bad.py
index 6a5da42..605b62c 100644
--- a/bin/srs_bad.py
+++ b/bin/srs_bad.py
@@ -28,7 +28,7 @@ import optparse
 import sys
 import tempfile
 import os
-from os.path import join, dirname, basename
+from os.path import dirname, basename
 
 try:
 	import _preamble
@@ -66,11 +66,10 @@ def handle_srr(srr_file, options, temporary_directory):
 			printout.add(stored_file)
 
 	if extracting_needed:
-		extract_files(srr_file, temporary_directory, extract_paths=False)
-		for value in srrinfo["stored_files"].values():
-			fn = basename(value.file_name)
+		# with paths: there can be more files with the same name
+		for srsf, _success in extract_files(srr_file, temporary_directory):
+			fn = basename(srsf)
 			if fn.endswith(".srs"):
-				srsf = join(temporary_directory, fn)
 				ft = file_type_info(srsf).file_type
 				if ft not in [FileType.MP3, FileType.FLAC]:
 					sample = sample_class_factory(ft)
-- 
2.43.0


From ab7fd990556b72c3632d6159f498c681f38260cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:55 +0000
Subject: [PATCH 61/67] fix: NZB tools: lost NZB files

---
 usenet/nzb_age.py            | 13 +++++++++++--
 usenet/nzb_rename.py         | 18 +++++++++---------
 usenet/nzb_sample_extract.py |  5 ++++-
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/usenet/nzb_age.py b/usenet/nzb_age.py
index 488cc56..0dae79d 100644
--- a/usenet/nzb_age.py
+++ b/usenet/nzb_age.py
@@ -14,11 +14,13 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>
 
+import io
 import optparse
 import sys
 import os
 import re
 import datetime
+import shutil
 
 def main(options, args):
 	if len(args) < 2:
@@ -38,7 +40,8 @@ def main(options, args):
 			continue
 		date = None
 		# not parsing the whole file, just what we need
-		with open(os.path.join(process_dir, nzbfile), "r") as file:
+		# any encoding: only ASCII is looked at
+		with io.open(os.path.join(process_dir, nzbfile), encoding="latin-1") as file:
 			for line in file.readlines():
 				match = re.match(r".* date=\"(\d+)\".*", line)
 				if match:
@@ -49,7 +52,13 @@ def main(options, args):
 			if start < diff.days < end:
 				if options.output_dir:
 					old = os.path.join(process_dir, nzbfile)
-					os.renames(old, os.path.join(options.output_dir, nzbfile))
+					new = os.path.join(options.output_dir, nzbfile)
+					if os.path.exists(new):
+						print("Not moved: %s already exists" % new)
+					else:
+						if not os.path.isdir(options.output_dir):
+							os.makedirs(options.output_dir)
+						shutil.move(old, new)
 				else:
 					print(nzbfile)
 		else:
diff --git a/usenet/nzb_rename.py b/usenet/nzb_rename.py
index dd9d513..962b347 100644
--- a/usenet/nzb_rename.py
+++ b/usenet/nzb_rename.py
@@ -27,12 +27,10 @@ def main(options, args):
 	output_dir = os.path.join(input_dir, "processed")
 
 	# create output folders
-	try:
-		os.mkdir(output_dir)
-		os.mkdir(os.path.join(output_dir, "music"))
-		os.mkdir(os.path.join(output_dir, "other"))
-	except:
-		pass
+	for odir in ("music", "other"):
+		odir = os.path.join(output_dir, odir)
+		if not os.path.isdir(odir):
+			os.makedirs(odir)
 
 	for nzb_file in os.listdir(input_dir):
 		f = os.path.join(input_dir, nzb_file)
@@ -43,9 +41,11 @@ def main(options, args):
 					odir = os.path.join(output_dir, "music")
 				else:
 					odir = os.path.join(output_dir, "other")
-				shutil.move(f, odir)
-				os.rename(os.path.join(odir, nzb_file),
-						os.path.join(odir, new_name + ".nzb"))
+				new_file = os.path.join(odir, new_name + ".nzb")
+				if not new_name or os.path.exists(new_file):
+					print("Not renamed: %s -> %s" % (nzb_file, new_file))
+				else:
+					shutil.move(f, new_file)
 			except Exception as e:
 				print(e)
 		else:
diff --git a/usenet/nzb_sample_extract.py b/usenet/nzb_sample_extract.py
index 5fcbf5d..abd5e1f 100644
--- a/usenet/nzb_sample_extract.py
+++ b/usenet/nzb_sample_extract.py
@@ -105,11 +105,14 @@ def extract_sample(nzb_file, output_dir):
 
 	if sample_found:
 		snzb_file = os.path.join(output_dir, os.path.basename(nzb_file))
+		if os.path.realpath(snzb_file) == os.path.realpath(nzb_file):
+			print("Not replacing %s with its samples" % nzb_file)
+			return
 		try:
 			os.makedirs(os.path.dirname(snzb_file))
 		except:
 			pass
-		with open(snzb_file, "w") as sample:
+		with open(snzb_file, "wb") as sample:
 			sample.write(nzb_utils.get_xml(sample_nzb))
 
 def main(options, args):
-- 
2.43.0


From 9d88d2814290a90ca9b189399dbb6a453314bedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:46 +0000
Subject: [PATCH 62/67] fix: location of MP3 music behind unknown data after
 the tag

---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 73cb7c3..ecd6a59 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2915,7 +2915,7 @@ def mp3_match_signature(track, block, mr):
 		data = mr.read_part(size, boffset)
 		found_offset = data.find(track.signature_bytes)
 		if found_offset > -1:
-			track.match_offset = boffset + found_offset
+			track.match_offset = block.start_pos + boffset + found_offset
 			track.match_length = min(track.data_length, block.size)
 			break
 		boffset += (batchsize - SIG_SIZE + 1)
-- 
2.43.0


From 7b6921a7d25e2ce0e01e9092657076484c8b0814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:56 +0000
Subject: [PATCH 63/67] fix: Rebuild files of solid archives that span volumes

---
 rescene/main.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index e66a7f1..a893136 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2548,20 +2548,22 @@ class CompressedRarFile(io.IOBase):
 					RETURNCODE[compress.returncode])
 	
 			self.rarstream = RarStream(out, compressed=True,
-				packed_file_name=os.path.basename(self.source_files[-1]))
+				packed_file_name=os.path.basename(source_file))
 		compress()
 		
 		# this happens with solid archives when the first file is small
 		# an .idx file is detected as having -mt1, but the .sub file can
 		# need 4 threads
-		if self.rarstream.length() != block.packed_size:
+		packed_size = get_full_packed_size(block, self.blocks)
+		if self.rarstream.length() != packed_size:
 			_fire(MsgCode.MSG, message="Solid archive recompression.")
-			while(self.rarstream.length() != block.packed_size and 
+			while(self.rarstream.length() != packed_size and 
 				self.good_rar.supports_setting_threads() and
 				self.good_rar.args.increase_thread_count(self.good_rar)):
 				compress()
 			
-		if self.rarstream.length() != block.packed_size:
+		if self.rarstream.length() != packed_size:
+			self.close()
 			raise ValueError("Something isn't right yet.")
 		
 	def get_most_recent_date(self):
-- 
2.43.0


From 005bb0ad29242064c4208b790a0359bcc48e961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:00 +0000
Subject: [PATCH 64/67] fix: Don't leave temporary folders after rebuilding
 compressed archives

---
 rescene/main.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index a893136..6861c31 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2056,8 +2056,6 @@ def compressed_rar_file_factory(block, blocks, src,
 		regular_method_failed.set_file(block)
 		return regular_method_failed
 	
-	global working_temp_dir
-	working_temp_dir = get_temp_directory()
 	try:
 		blocks_all = blocks
 		blocks = get_archived_file_blocks(blocks, block)
@@ -2213,14 +2211,16 @@ class CompressedRarFile(io.IOBase):
 		self.COMPRESSED_NAME = "pyReScene_compressed.rar"
 		self.solid = solid 
 		
-		global working_temp_dir
-		self.temp_dir = working_temp_dir
-		
 		# make sure there is a RarRepository
 		global repository
 		if not repository:
 			repository = RarRepository()
-			
+		repository.get_most_recent_version()  # nothing to try otherwise
+
+		global working_temp_dir
+		working_temp_dir = get_temp_directory()
+		self.temp_dir = working_temp_dir
+
 		# set a minimum thread count to start with based on previous runs
 		# should make it a little bit faster too
 		thread_count = ""
-- 
2.43.0


From 7cef1cd9040d75d03d2f3dfa294a0fb073734c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:05 +0000
Subject: [PATCH 65/67] fix: Rebuild compressed RAR 2.0x sets again

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 6861c31..cbcc37e 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2478,7 +2478,7 @@ class CompressedRarFile(io.IOBase):
 		for rar in repository.get_rar_executables(self.get_most_recent_date()):
 			_fire(MsgCode.MSG, message="Trying %s." % rar)
 			args.set_rar2_flags(re.search(r'_rar2', rar.path()) is not None)
-			args.set_rar4_flags(re.search(r'_rar[56]', rarexe.path()) is not None)
+			args.set_rar4_flags(re.search(r'_rar[56]', rar.path()) is not None)
 			found = False
 			if rar.supports_setting_threads():
 				while args.increase_thread_count(rar):
-- 
2.43.0


From e39c3da2057241b1d585f1ab67305c6abf3467a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:11 +0000
Subject: [PATCH 66/67] fix: Reconstruct the next SRR without data of the
 previous one

---
 rescene/main.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index cbcc37e..6167d14 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1253,6 +1253,11 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 	global temp_dir
 	temp_dir = tmp_dir
 	
+	# what was found for an other SRR file doesn't apply to this one
+	global archived_files, regular_method_failed
+	archived_files = {}
+	regular_method_failed = False
+	
 	if rar_executable_dir:
 		initialize_rar_repository(rar_executable_dir)
 		if not repository.count():
@@ -1374,7 +1379,6 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 						else:  # uncompressed file
 							srcfs = open(src, "rb")
 							if compressed_block_encountered:
-								global archived_files
 								archived_files.setdefault(block.file_name,
 									UncompressedRarFile(block, src,
 									    compressed_block_encountered))
-- 
2.43.0


From 7e49a9d4f4ce378773126e51f06720064c6e4bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:16 +0000
Subject: [PATCH 67/67] fix: Rebuild compressed files with the name of one from
 another set

---
 rescene/main.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 6167d14..9482878 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1332,7 +1332,8 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 			# keep track of the offset in the packed file
 			if (packed_name != block.file_name or
 				(not block.flags & block.SPLIT_BEFORE and
-				 packed_offset >= block.unpacked_size)):
+				 (packed_offset >= block.unpacked_size or
+				  block.is_compressed()))):
 				# other file, or the next set has a file with the same name
 				packed_name = block.file_name
 				packed_offset = 0
@@ -1780,9 +1781,10 @@ def temp_folder_cleanup():
 	
 def get_rar_data_object(block, blocks, src,
 	                    in_folder, hints, auto_locate_renamed):
-	rar_object = archived_files.setdefault(block.file_name,
-		compressed_rar_file_factory(block, blocks, src, in_folder, hints,
-		                            auto_locate_renamed))
+	rar_object = compressed_rar_file_factory(block, blocks, src, in_folder,
+	                                         hints, auto_locate_renamed)
+	# replaces the file with the same name from an other set
+	archived_files[block.file_name] = rar_object
 	return rar_object
 
 def initialize_rar_repository(location):
-- 
2.43.0

