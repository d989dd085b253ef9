#!/usr/bin/env python3
# Writes /verif/known-findings.txt from the list below (hash found by subject).
import subprocess, os
log = subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
H = {l.split(" ",1)[1]: l.split(" ",1)[0] for l in log}
F = [
("C03","fix: a TDMS timestamp occupies 16 bytes in raw data","writing a timestamp channel declared 12 bytes per value, so offsets and every later sample were wrong; reading skipped by 12"),
("C03","fix: an extended float occupies 10 bytes in raw data, not the 16 of its u128","writing or skipping an extended float channel used 16 bytes per value where 10 are stored"),
("C04","fix: use the TDMS type codes 0x1A and 0x1B for double and extended floats with unit","files with DoubleWithUnit (0x1A) or ExtendedWithUnit (0x1B) channels failed to load or were misread"),
("C04","fix: do not parse raw data as meta data in segments without meta data","a segment without the metadata flag had its raw data parsed as an object list"),
("C01","fix: only omit meta data when the channels and formats all match the previous segment","write a+b then only a (or the same channels with another count or type): metadata omitted, samples attributed wrongly"),
("C03","fix: do not flag raw data in a segment when no values are written","writing zero samples produced a segment flagged as raw data with none, which does not load"),
("C09","fix: parse object paths by their quoting so names can contain slashes and quotes","names containing '/' or a quote could not be parsed or listed, or gave another name"),
("C08","fix: only list the channels of the requested group","listing group g also listed channels of groups whose escaped name starts with g's"),
("C18","fix: convert between timestamps and chrono times without floating point","chrono conversions lost sub-microsecond precision or panicked outside the i32 second range"),
("C12","fix: never expose uninitialised memory when reading a string","a Read implementation that inspects its buffer saw uninitialised memory while a string was decoded"),
("C04","fix: recognise DAQmx channels in little endian files","little endian DAQmx object markers were taken for ordinary raw data indexes"),
("C03","fix: refuse to write string channels, the raw data would be invalid","writing Strings as channel data produced raw data no reader can decode"),
("C04","fix: account for the size of string channels next to the channels being read","reading a fixed-size channel stored next to a string channel returned bytes of the string"),
("C04","fix: an object without a raw data index has no data in the segment","an object listed with 'no raw data' stayed active, shifting all later samples"),
("C11","fix: load segments which announce raw data but hold none","a segment flagged as raw data with zero length made the whole file unreadable"),
("C13","fix: load everything before a torn or unfinished last segment","a file cut inside its last segment, or with the unfinished marker, lost all earlier segments or reported samples that are not there"),
("C13","fix: append after the last complete segment when an interrupted write left a tail","appending to a cut file placed new segments where no reader finds them"),
("C14","fix: refuse to write after a segment that the stream failed to take","after a failed write the same writer kept writing at a wrong offset and reported success"),
("C20","fix: do not count samples of a string block which is not complete","a cut string block was counted as if complete"),
("C06","fix: track the samples read per channel when their counts in a block differ","multi-channel reads with different lengths per channel overwrote or skipped samples"),
("C05","fix: apply the skip of each channel on its own when reading contiguous blocks","start positions inside later chunks, or channels with different skips, returned the wrong samples"),
("C06","fix: keep reading interleaved rows for the channels which skip more than others","interleaved multi-channel reads stopped early for channels with a larger skip"),
("C06","fix: fill every output when a channel is requested more than once","the first of two buffers for the same channel stayed unfilled"),
("C20","fix: do not overflow when adding up the length of a channel","channel_length panicked on a file whose declared counts add up past 2^64"),
("C20","fix: refuse interleaved data with a different length for each channel","interleaved blocks with unequal declared lengths delivered samples with holes"),
("C11","fix: find active objects by path without searching all of them","loading a 2.7 MB file that lists 66,000 channels took 12 s, growing with the square of the list"),
("C11","fix: look for repeated channels in a request without comparing every pair","a request for n channels compared n*n paths before reading"),
("C14","fix: an interrupted repair of a cut big endian segment leaves the file readable","when the stream failed after part of the corrected length of a cut big endian segment was written, the file no longer opened"),
("C16","fix: refuse texts too long for the format","a property value, property name or object name of 4 GiB or more was written with a truncated length, so that nothing behind it could be read"),
("C16","fix: refuse to write the raw data of DAQmx","an element type of a program stored as DAQmx raw data was accepted and left a file that does not open"),
("C14","fix: refuse to write after a segment that ended with any kind of error","after a value of a program's own type failed to encode with an error other than an I/O error, or panicked, the same writer went on behind the incomplete segment and the file no longer opened"),
("C16","fix: keep the segments another handle has appended when writing","a handle that was opened before another one appended overwrote the header of the segments written by the other when it was used to write"),
("C02","fix: drop the bits which are not part of an extended float","an ExtendedRaw made from a number with more than 80 bits showed them on the writing handle, but the reopened file did not have them"),
("C01","fix: refuse to write the same channel more than once in a segment","a write of the channels a, b, a was accepted, although the format lists a channel once per segment: the values of the second a were read back as samples of b and the other way round, by this library and by any other reader"),
]
out = ["# Findings on the pinned commit. 'known:' entries are reported as KNOWN-FINDING and matched by the exact text after match=<<.",
"# 'fixed:' entries document repairs made in /repo; they suppress nothing.", ""]
for pid, subj, what in F:
    out.append(f"fixed: property={pid} {H[subj]} {what}")
missing = [s for s in H if s.startswith("fix:") and s not in {f[1] for f in F}]
assert not missing, missing
open(os.path.join(os.path.dirname(__file__),"..","known-findings.txt"),"w").write("\n".join(out)+"\n")
