import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
M="rescene/main.py"; R="rescene/rar.py"
p("R01","Reconstruction from an SRR reproduces the RAR set byte for byte",
 "For every store-mode RAR set from which an SRR can be made, reconstructing from that SRR and the archived files writes every volume of the set under its original name, byte-identical to the original. This holds for one and several sets per SRR, any number of volumes and archived files, both volume naming schemes, recovery records, recorded sub paths, and when only some of the sets or volumes are asked for.",
 ["inputs","configurations"],"Every store-mode RAR3 layout (volume count and sizes, number/size/order of archived files incl. empty files and directories, header flags, end blocks, padding, recovery records, naming scheme, save-paths, several sets) and every subset selection of the reconstruct call.",
 "Tests rebuild a handful of stored fixture sets from fixed SRR files; none varies the volume boundary against file boundaries, mixes recovery records with multi file sets or rebuilds subsets.",
 [M,R,"rescene/utility.py","rescene/rarstream.py"],
 [("header blocks kept, packed data re-read from the archived file",M+": create_srr / reconstruct"),("recovery data regenerated",R+": RarNewSubBlock/RarOldRecoveryBlock and recovery sector code")],
 ["reconstruct() output files","MsgCode events"])
p("R02","An SRR holds exactly the RAR metadata and the asked-for stored files",
 "An SRR made from a release contains, in this order, one header naming the creating application, every requested file that exists (in the order asked, the SFV files last) under its proper name with its exact bytes, then for each volume in set order its name and every header block byte-identical and in order, without the packed file data or recovery data. Nothing else from the volumes is lost or added apart from the documented video hashes, and reading such an SRR block by block covers the file exactly.",
 ["inputs","configurations"],"Every RAR set layout and stored-file list (globs, missing files, sub directories, empty files, SFV given as input) accepted by SRR creation, with and without path saving and OSO hashes.",
 "Tests compare a few fixtures' sizes or first blocks; none parses the result with an independent reader against the originals for varied layouts.",
 [M,R],[("block loop writing header bytes per volume",M+": create_srr"),("stored file search and store",M+": _search/_store"),("block (de)serialisation",R+": RarBlock, SrrStoredFileBlock, SrrRarFileBlock")],
 ["bytes of the created SRR"])
p("R03","Reconstruction never reports success over data that is not the original",
 "When an archived file offered for reconstruction is absent or does not have the recorded size and checksum, reconstruction ends in an error or reports a checksum mismatch; it never finishes silently leaving volumes that differ from the originals. Renaming hints and automatic locating accept a file under another name only when its content is the recorded one, and then rebuild byte-identical volumes.",
 ["inputs","fault_sequences"],"Every way the source data can be wrong (missing, shorter, longer, one byte flipped anywhere, swapped files, renamed, hinted to a wrong file, located in sub folders), over all set layouts.",
 "Tests use one or two wrong-size/wrong-name cases on fixture SRRs.",
 [M,"rescene/rarstream.py"],[("size check, CRC check while copying",M+": reconstruct, _reconstruct/_locate_file"),],["exceptions, events and output of reconstruct()"])
p("R04","Stored files come back exactly as stored",
 "Extracting from an SRR writes every stored file whose name was selected, each with exactly the stored bytes, at the recorded sub path below the output folder, or directly in it when paths are not wanted, and writes no other file. The reported result list names each selected file once and says truthfully whether it was written.",
 ["inputs","configurations"],"Every list of stored names (nested paths, either slash, unicode, empty files, same basenames), contents, filter (exact name, matcher) and path option, via the library and the command line.",
 "Tests extract a few fixture files with default options.",
 [M],[("stored block walk and payload copy",M+": extract_files / _extract")],["output directory tree","returned list","MsgCode events"])
p("R05","Editing an SRR changes only what was asked",
 "Adding, removing, renaming stored files and merging SRR files changes only the asked stored entries: every other stored file keeps its name, bytes and relative order, and every RAR metadata and hash block stays byte-identical and in order. Any sequence of edits leaves the file a well-formed SRR that still lists, extracts and reconstructs as the edits say.",
 ["histories","inputs"],"Every SRR and every finite sequence of add / remove / rename / merge operations with valid and invalid arguments (duplicates, missing files, names not present, RAR volumes offered as stored file).",
 "Tests apply single operations to one fixture each; sequences are never checked against a model.",
 [M],[("copy into a temporary file with insertion point after the stored blocks",M+": add_stored_files, remove_stored_files, merge_srrs"),("in place rename through a rewritten header",M+": rename_stored_file")],["SRR bytes after each operation"],
 [("SRR file","ordered list of stored entries and metadata blocks","file on disk")])
p("R06","A failed or interrupted SRR edit never loses the SRR",
 "If adding, removing, renaming stored files or merging SRR files fails at any file operation, by an error or by the process dying, the SRR has its complete old or complete new content under its own name. When the operation reports an error to the caller without the process dying, the SRR is unchanged and no partial temporary file stays behind.",
 ["crash_points","fault_sequences"],"Every file system event of an edit (open, write limit, remove, rename) at which an I/O error or process death can occur.",
 "The tests inject no I/O fault or crash.",
 [M],[("temp file, then remove+rename",M+": add_stored_files, remove_stored_files, rename_stored_file"),("unlink temp on error",M+": except paths")],["directory content after the fault"])
p("R07","Untrusted SRR and SRS files cannot write outside the output folder",
 "Whatever names an SRR or SRS file contains (parent references, absolute names, drive letters, mixed slashes, in stored files, volume names, archived file names or sample names), extracting, reconstructing and sample rebuilding create or modify files only below the chosen output folder. The creating side keeps stored names relative as well: no stored name it writes climbs out of the release.",
 ["inputs"],"Every crafted name in every name-bearing block, for extract, reconstruct and SRS rebuild, through library and command lines.",
 "Tests check one or two '..' examples of stored files only.",
 [M,"resample/main.py","resample/srs.py","rescene/utility.py"],[("path sanitising before opening",M+": extract_files / reconstruct"),("sample name use",
 "resample/srs.py: load and rebuild")],["audit events for file creation, with the path"])
p("R08","Existing files are overwritten only with consent",
 "Unless overwriting was requested or confirmed, no operation that creates, extracts or rebuilds (merging into a named output excepted) changes or removes a file that already exists, and an operation that writes nothing because of that says so. With consent, the existing file ends up replaced by exactly the content a fresh run would have written.",
 ["inputs","configurations"],"Every operation (create, extract, reconstruct, SRS create and rebuild, library and command line) with every subset of its outputs already existing, and each answer to the question.",
 "Tests run nearly always with a clean output folder.",
 [M,"resample/srs.py","rescene/srr.py"],[("overwrite question before every open for writing","rescene/main.py: can_overwrite; resample/srs.py: can_overwrite; rescene/utility.py")],["bytes and identity of pre-existing files"])
p("R09","SRR listing tells the truth",
 "Listing an SRR reports exactly the creating application, the stored files with name, size and order, the RAR volumes (of distinct names) with their original sizes and order, each archived file (of distinct name) with its full size and checksum, the SFV entries and comments and the video hashes that the SRR contains, and the compression flag is set exactly when an archived file is compressed. The detail dump of any SRR or RAR the tool accepts runs to the end.",
 ["inputs"],"Every SRR that can be created, from every RAR layout, including unicode names, large sizes, several sets and compressed sets.",
 "Tests look at a few fields of a few fixtures.",
 [M,R],[("one pass over the blocks",M+": info, print_details"),("block parsing",R+": RarReader")],["info() result", "CLI listing"])
p("R10","The content hash identifies the RAR content, nothing else",
 "The content hash of an SRR (SHA-1 over the RAR header blocks of the volumes in order of their lower-case names) does not change when stored files are added, removed, renamed or reordered, the creating application or video hashes differ, or sets appear in another order, and it is the same for the same release whatever the letter case of directory paths involved. It differs whenever a header block of a volume differs.",
 ["inputs"],"Every pair of SRR files differing only outside, or also inside, the RAR metadata.",
 "Tests pin a few hash values.",
 [M],[("sorted hash over volume names and header bytes",M+": content_hash")],["hash values of related SRR pairs"])
p("R11","Malformed SRR and RAR input is rejected, not mis-read",
 "For every byte string given as SRR or RAR, reading it terminates after work bounded by the input size and either yields blocks whose headers lie within the file, in order and without overlap, or raises the documented format errors (ValueError or EnvironmentError); a file with a broken first block is always refused. No read-only operation changes the input.",
 ["inputs"],"Every byte string; sampled as mutations, truncations and splices of valid files, plus crafted size fields.",
 "Tests feed a handful of broken fixtures.",
 [R,M],[("header CRC and size checks while iterating",R+": RarReader._read_block")],["block positions/sizes","exceptions"])
p("R12","Reading through a RAR stream equals reading the archived file",
 "Opening an archived file inside a stored RAR set behaves as a read-only file with exactly the archived bytes: every sequence of seek, tell, read and readline calls returns what the same sequence returns on the original file, across volume boundaries, for any member selected by name, given the first volume of the set. A missing or compressed member is refused, and so is a later volume unless the rest of the file from there is asked for.",
 ["inputs","histories"],"Every set layout and every finite call sequence, including seeks past the end and negative/relative seeks.",
 "Tests use fixed reads over a few fixture sets.",
 ["rescene/rarstream.py",R],[("volume walk and offset table","rescene/rarstream.py: RarStream")],["return values of each call"],[("position","current offset in the virtual file","rescene/rarstream.py")])
p("R13","Compressed RAR sets are rebuilt exactly with the right RAR, or not at all",
 "Reconstructing an SRR of which archived files are compressed, with a folder of preprocessed RAR executables, gives back every volume byte for byte and reports success when one of the executables, with a thread count that the -mt settings allow, packs the data the way the release has it: for any level and dictionary size, one or many volumes, stored and compressed files mixed, files that do not get smaller, solid archives, RAR 2.0x volumes without part checksums, several sets with the same archived names, and one SRR after the other in one process. Each version only gets switches it knows. When no executable makes the data (they are told apart by the checksum of the first part and the packed size), the failure is reported. The folder with the data and the one with the executables stay as they are and nothing is left in the folder for temporary files.",
 ["inputs","histories"],"Every compressed set, every choice of available RAR versions and thread settings; the real RAR programs are not here: a stand-in packs differently per version, level, dictionary, threads and (solid) earlier files.",
 "Tests cover parts of the thread count logic and the choice of versions only: nothing compressed is rebuilt.",
 [M],[("search for the version and parameters",M+": CompressedRarFile.search_matching_rar_executable"),("solid archives",M+": CompressedRarFile.set_new"),("parameters",M+": RarArguments")],["rebuilt volumes","exit status","temporary folder"])
p("R14","The video hash stored is the one defined for the archived file",
 "For every archived video file (by its extension: .mp4 .m4v .avi .mkv .wmv .vob .m2ts .ts .mpeg .mpg .m2v .m2p, in any letter case) of at least 64 KiB the recorded hash and size are exactly the 64-bit little-endian sum of its size, its first 64 KiB and its last 64 KiB as defined by the OSO/ISDb hash, recorded once per distinct archived name, and a smaller file never gets a wrong hash.",
 ["inputs"],"Every archived file size and content, every volume split, several files per set.",
 "Tests cover two or three fixture files, mostly plain ones.",
 ["rescene/osohash.py",M],[("sum over 8192 quad words at both ends, reading through RarStream","rescene/osohash.py")],["hash block in the SRR, compared with a direct computation"])
p("R15","SFV parsing keeps every entry and volumes are put in set order",
 "Parsing an SFV yields every well-formed entry exactly once with its name and checksum, keeps comments, treats unparsable lines as errors rather than entries, and orders the RAR volumes of a set from first to last in either naming scheme. Writing the entries and parsing again gives the same entries.",
 ["inputs"],"Every SFV text: any order, white space, comment style, letter case, blank lines, names with spaces, both naming schemes and set sizes past the 100-volume roll over.",
 "Tests cover a handful of hand written SFVs.",
 ["rescene/utility.py"],[("line parser and volume-aware ordering","rescene/utility.py: parse_sfv_data, SfvEntry")],["entries, comments, errors, sort order"])
p("R16","Volume naming follows the RAR rules",
 "For every volume name of a RAR set, the computed next volume, first-volume test and RAR-name test agree with the naming convention of the set (.rar, .r00 ... .r99, .s00 ...; .partN with any fixed digit count; .001 style), so that walking from the first volume visits every volume of the set in order.",
 ["inputs"],"Every base name and volume index in every naming scheme, including roll-overs and upper case.",
 "Tests try a few names.",
 ["rescene/utility.py","rescene/unrar.py",R],[("name arithmetic","rescene/utility.py: next_archive, is_rar, first volume test")],["walk of names against a reference enumeration"])
p("R17","Creation refuses what it cannot represent and leaves nothing behind",
 "SRR creation from a set with a missing volume, with compressed data not explicitly allowed, from unreadable or non-RAR input, or that fails while writing, reports an error and leaves no SRR, partial or temporary file where the SRR should go. A successful creation leaves exactly the one SRR.",
 ["inputs","fault_sequences"],"Every such defect at every volume position, and an I/O fault at every file operation of the creation.",
 "Tests cover a missing file and one compressed fixture.",
 [M,"rescene/srr.py"],[("write to temp name then rename; unlink on error",M+": create_srr"),("CLI clean-up","rescene/srr.py: main")],["output directory after the call","exit code"])
p("R18","Verification of a release against its SRR tells good from bad",
 "Verifying extracted or packed files against an SRR succeeds when all (non-empty) files match the recorded checksums, and reports failure for every missing file or file with different content.",
 ["inputs"],"Every release layout and every single-file corruption, deletion or truncation.",
 "The verify command has no test of corruption per kind.",
 ["rescene/srr.py",M],[("crc per SFV/RAR entry","rescene/srr.py: verify_extracted_files")],["exit status and output of the verify command"])
p("R19","The srr command line does what its options say and its exit code is true",
 "Each invocation of the srr tool (create, list, extract, reconstruct, store, remove, verify) has the effect the corresponding library operation has on the same inputs, only in the selected output folder, and exits non-zero when it failed and zero when it succeeded; a content mismatch during reconstruction is always reported.",
 ["inputs","configurations"],"Every supported combination of options over generated releases, successful and failing.",
 "The command line is barely tested.",
 ["rescene/srr.py"],[("option dispatch","rescene/srr.py: manage_srr, create_srr, main")],["exit code, file tree, compared with library calls"])
p("R20","Checksum combining equals checksumming the concatenation",
 "Combining the CRC32 values of two pieces with the second piece's length gives the CRC32 of the concatenated data, for every pair of pieces including empty ones.",
 ["inputs"],"All pairs of byte strings and lengths up to multi-gigabyte sizes.",
 "A single example is tested.",
 ["rescene/crc32combine.py"],[("GF(2) matrix powers","rescene/crc32combine.py")],["return value versus zlib"])
p("S01","A sample is rebuilt bit for bit from its SRS and the main file",
 "For every sample that an SRS can be made of, rebuilding with the SRS and a main file that contains the sample's streams (each first occurring where the sample was cut, attachments included) produces a file that is byte-identical to the sample, has its name, and is reported as a success; this holds for AVI, MKV, MP4, WMV, FLAC, MP3 and plain stream samples.",
 ["inputs"],"Every container layout per format (track count, interleaving, frame sizes, padding/junk, metadata before and after, unknown elements, cut position) and every main file from which the sample could have been cut.",
 "Tests rebuild no more than a few tiny fixtures; most container shapes are never generated.",
 ["resample/main.py","resample/riff.py","resample/ebml.py","resample/mov.py","resample/asf.py","resample/flac.py","resample/mp3.py","resample/stream.py"],
 [("match track signature, extract tracks, rebuild around stored metadata","resample/main.py: *_find_sample_streams, *_extract_sample_streams, *_rebuild_sample")],["rebuilt file bytes"])
p("S02","Sample rebuilding works the same from within RAR volumes",
 "Rebuilding a sample with the main file still inside its stored RAR volumes, beginning in the first one, gives the same result, byte for byte, as with the extracted main file.",
 ["inputs"],"Every volume split of every main file, per format.",
 "No test rebuilds every format from volumes of varied sizes.",
 ["resample/main.py","rescene/rarstream.py"],[("RarStream as source when the main file is a RAR volume","resample/main.py and the format readers")],["rebuilt file bytes from both sources"])
p("S03","SRS metadata survives writing and reading",
 "Whatever sample name, size, checksum, application name, flags and tracks (number, length, signature, match offset) are written into an SRS, in each container format, are read back identically, and reading an SRS made from a sample gives that sample's true name, size and checksum.",
 ["inputs"],"Every value range of the fields: track numbers and lengths beyond 2^16/2^32, long names, empty and long signatures, several tracks.",
 "Tests cover a few small values.",
 ["resample/main.py"],[("FileData/TrackData serialise and parse","resample/main.py")],["decoded fields"])
p("S04","A sample rebuild never succeeds with wrong data",
 "When the main file given does not contain the sample's data (another file, changed bytes, truncated), rebuilding reports an error and, unless keeping the failed result was asked for, leaves no file that passes for the sample; an already existing file under the sample's name is not harmed.",
 ["inputs","fault_sequences"],"Every main file differing from a right one in the matched region: flips, truncation, other content, other format.",
 "Tests contain at most one such case per format.",
 ["resample/main.py","resample/srs.py"],[("size and CRC comparison after rebuild","resample/srs.py and resample/main.py: rebuild")],["exit status, output folder"])
p("S05","Broken samples are not turned into an SRS",
 "Creating an SRS from a truncated or otherwise structurally broken sample reports an error or, where it is accepted, the SRS still rebuilds that exact file from a main file with its streams; no SRS that cannot do so is left behind.",
 ["inputs"],"Every truncation point and header corruption per format.",
 "Tests try one truncated sample for a few formats.",
 ["resample/main.py","resample/srs.py"],[("profile and size consistency check","resample/main.py: profile_*")],["exit status, presence of SRS, rebuild result"])
p("S06","SRS creation with a main file check fails when the sample is not in it",
 "When the check against the main file is asked for, SRS creation succeeds with the match offsets recorded only if the recorded signature of every track of the sample is found in the main file, and otherwise fails without leaving an SRS.",
 ["inputs"],"Every sample/main pair, matching or not, per format, plain or in RAR volumes.",
 "Hardly tested.",
 ["resample/main.py","resample/srs.py"],[("find streams and match offset","resample/srs.py create path")],["exit status, SRS track data"])
p("S08","The srs command line never destroys files and its exit code is true",
 "The srs tool exits zero exactly when the SRS was created or the sample was rebuilt correctly (or the user declined to replace an existing SRS), replaces existing files only with consent, and when it fails leaves pre-existing files untouched and no temporary or partial results behind.",
 ["inputs","configurations","fault_sequences"],"Every combination of create/rebuild/list options, existing files, answers, and I/O errors.",
 "No tests of the command line with existing files or faults.",
 ["resample/srs.py"],[("temporary file then replace","resample/srs.py: main, replace_result")],["exit code, directory tree"])
p("S09","Malformed media and SRS input terminates with an error",
 "For every byte string offered as sample, SRS or main file, creating, listing and rebuilding terminate after work bounded by the input size, change no input file, and never report success for a sample that does not match its recorded checksum.",
 ["inputs"],"Every byte string; sampled as mutations, truncations and crafted sizes of valid files of each format.",
 "Tests feed very few broken files.",
 ["resample/main.py","resample/riff.py","resample/ebml.py","resample/mov.py","resample/asf.py","resample/flac.py","resample/mp3.py","resample/stream.py"],
 [("element size checks in the readers","resample format readers")],["exceptions, CPU time, output tree"])
p("S10","Container readers report the true structure of a media file",
 "Walking a well-formed media file (of known element sizes) with the format readers yields every element once, in file order, with its true type, position and length, skipping or descending consistently, and the track sizes and frame counts found equal those actually in the file.",
 ["inputs"],"Every well-formed file per format, including padding bytes, zero-length elements, 64-bit sizes, unknown-size-free EBML with every lacing type.",
 "Tests check a few elements in a few fixtures.",
 ["resample/riff.py","resample/ebml.py","resample/mov.py","resample/asf.py","resample/flac.py","resample/mp3.py"],[("read/skip/move_to_child state machine","resample format readers")],["element sequences and track totals"])
p("A01","Automatic SRR creation captures the release and only reads it",
 "Making an SRR automatically from a release directory stores exactly the release's metadata files (nfo, sfv, m3u, proofs, logs, cues, subtitles metadata and an SRS per sample, or an error report for a broken sample) and every RAR set, each under its path relative to the release, and never changes, adds or removes anything inside the release. The resulting SRR reconstructs the release's RAR sets and samples, and temporary files are gone afterwards.",
 ["inputs","configurations"],"Every release directory layout: sets in CD folders, sample/proof/subs sub folders, music releases, letter case, extra files.",
 "Tests cover helper functions, not whole releases.",
 ["bin/pyrescene.py"],[("file classification and ordering","bin/pyrescene.py: generate_srr, get_files, is_storable, create_srr_for_subs, ...")],["SRR contents against the release tree; tree snapshot before/after; temp folder"])
p("A02","Retagging a music track restores it exactly or changes nothing",
 "Repairing tags of tracks from a release SRR yields exactly the original track bytes when the audio is the recorded audio, leaves the user's file unchanged when it is not or replacing was declined, touches no other file than the stored ones extracted, and exits zero exactly when all tracks were repaired.",
 ["inputs"],"Every change of tags around identical audio, and every change of the audio.",
 "No tests.",
 ["bin/retag.py","resample/main.py"],[("SRS rebuild of the track","bin/retag.py: fix_tracks")],["track bytes after the run"])
p("A03","Automatic creation never leaves a half-made SRR that looks finished",
 "When a release cannot be captured (missing or corrupt volume, unreadable volume), automatic creation reports failure for that release and leaves no SRR for it, keeps any SRR that existed before when not asked to overwrite, and still handles the other releases given. A metadata file that cannot be read is left out with a message, never stored in part.",
 ["inputs","fault_sequences"],"Every failing release among several, failure at every stage.",
 "No tests.",
 ["bin/pyrescene.py"],[("error handling per release","bin/pyrescene.py: generate_srr, main")],["output folder, exit status"])
p("A04","Every release below a folder is found once",
 "Going through a folder recursively, the automatic tool comes across every release in it exactly once and in alphabetical order, whatever the other folders are called and however deep it lies: folders with an nfo or SFV file, with SFV files in disc folders (CD1, DISC2, ...), and old music releases of two to ten named folders with an SFV each. Folders inside a found release, season packs (one nfo file and nothing but releases), sample, proof, subs and disc folders and folders with spaces in the name are not taken for a release. The lists of releases, of those without nfo and of those without sample name exactly those and change nothing; with SRR creation there is one SRR for each. A run that is refused because of its options tells so, exits nonzero and leaves nothing behind.",
 ["inputs"],"All folder trees, names that contain each other, nesting and file combinations.",
 "No tests.",
 ["bin/pyrescene.py"],[("walk and release detection","bin/pyrescene.py: get_release_directories, is_release"),("early returns","bin/pyrescene.py: main")],["listed names; SRR files; temp folder"])
p("A05","The collection tools report exactly what matches and lose nothing",
 "The tools for collections do what their options say to exactly the files that match. srr_sort lists the SRR files that are compressed, empty, have several NFO files, duplicate names, images, no stored, SFV or NFO files, text files, several archived files, repack names or upper-case volumes, and moves just these when asked. srr_extract_srs extracts every stored SRS file to its path and nothing else; srr_merge joins all given SRR files in order; srs_batch makes an SRS for each sample in a tree, or a text file that says what is wrong, and with -n leaves existing SRS files alone; srs_size and srs_bad list exactly the SRS/SRR files concerned; nzb_age, nzb_rename and nzb_sample_extract list, move, rename or extract from the right NZB files with all their segments. No file of the collection is changed, replaced by another of the same name or lost, and an SRR or NZB file that cannot be read is reported or left alone without stopping the others.",
 ["inputs"],"All collections, options and name collisions.",
 "No tests.",
 ["bin/srr_sort.py","bin/srr_extract_srs.py","bin/srr_merge.py","bin/srs_batch.py","bin/srs_bad.py","bin/srs_size.py","usenet/nzb_age.py","usenet/nzb_rename.py","usenet/nzb_sample_extract.py"],[("predicates and move","bin/srr_sort.py: check"),("batch","bin/srs_batch.py: create_srs"),("moves","usenet/nzb_rename.py, nzb_age.py")],["printed names; file trees before and after"])
p("U01","yEnc decoding returns the posted bytes or an error",
 "Decoding a yEnc article, single or multi part, returns exactly the encoded bytes, part range and name, whatever the line length and byte values, and an article whose data does not agree with its checksum or that is cut off is reported as broken rather than returned as good.",
 ["inputs","fault_sequences"],"All byte strings, line lengths, escaped characters, dot stuffing, part splits and corruptions.",
 "Tests decode one or two fixtures.",
 ["usenet/yenc.py"],[("decode loop and size/CRC checks","usenet/yenc.py: decode")],["decoded bytes, exceptions"])
p("U02","An SRR made from Usenet equals the SRR made from disk",
 "Reading a posted non-RAR file through the news server connection behaves as reading the file itself, for every sequence of seeks and reads over its segments, and reading a RAR file from start to end gives its bytes. An SRR made from an NZB file of a complete post has the same stored files and the same volume blocks as the one the library makes from the files on disk, whatever the segment size, the order of the NZB, the options and the server that still has an article (an article is looked for on every configured server). When something is missing everywhere, no SRR is made that differs from the right one: a damaged or incomplete file that is not a volume is left out, and a volume that is incomplete where its blocks are needed means that there is no SRR. The NZB file itself is never lost.",
 ["inputs","histories","fault_sequences"],"Every segment split of every volume, every read sequence, and missing or damaged segments.",
 "Tests use recorded fixtures only.",
 ["usenet/srr_usenet.py","usenet/yenc.py"],[("segment cache behind a file-like object","usenet/srr_usenet.py: NNTPFile")],["bytes returned; resulting SRR"])
p("U03","NZB files are read, merged and split without losing segments",
 "Parsing an NZB yields every file and segment with its true name, number, size and message id; merging or splitting NZB files yields NZB output that contains each file and segment of the inputs exactly once (files without a usable name are reported by the split), and no failure loses a file that was in an input.",
 ["inputs"],"Every NZB document: any number of files/segments/groups, subject forms, order, special characters.",
 "Tests cover a few documents.",
 ["usenet/nzb_utils.py","usenet/nzb_merge.py","usenet/nzb_split.py","usenet/pynzb/*"],[("XML parsing and serialisation","usenet/nzb_utils.py and tools")],["multiset of segments before and after"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
