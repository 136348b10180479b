import subprocess
m={"f9aa481":("C15","a lossless JPEG difference of category 16 consumed bits it does not have"),
"98b4d3d":("C04","truncated or inconsistent lossless JPEG streams panicked"),
"f9d0fc1":("C02","a missing or unreadable tile was delivered as black pixels"),
"2813482":("C12","uninitialised memory was delivered as image content when a buffer was loaded short"),
"479f743":("C04","a thumbnail offset past the end of the file overflowed"),
"f5ed014":("C01","identification from the content depended on a single read()"),
"07e0056":("C02","a seek error crashed and a loop in the IFD chain hung"),
"e5e82c8":("C04","empty metadata values panicked and many empty directories exhausted the stack"),
"1cbd99f":("C16","inline byte values had always 4 bytes"),
"b030ea1":("C04","entries with less data than their count and null denominators panicked"),
"8d0e3b9":("C18","a failing output panicked"),
"c28209d":("C18","dumping a file whose container cannot be loaded panicked"),
"6a6a95a":("C20","rendering inconsistent data, levels, matrices or tables panicked"),
"1771f5b":("C04","short arrays, large offsets and 32 bit samples panicked"),
"e8d9173":("C04","the bit reader consumed bits it could not read"),
"d00a318":("C02","a file that got shorter gave partly uninitialised buffers"),
"f970e94":("C04","CRW heaps and records that do not fit panicked"),
"fe691ad":("C15","CRW low bits went to the wrong pixel, padding pixels were delivered"),
"87e5be9":("C02","a raw image was invented from offset 0 when its location was missing or unreadable"),
"d418ae7":("C10","or_mosaicinfo_get_pattern aborted and did not follow its declaration"),
"0293782":("C10","a colour matrix buffer larger than the matrix aborted; or_rawfile_get_rendered_image left the code unset"),
"990a784":("C10","tag names were not NUL-terminated"),
"fe814b0":("C10","strings containing NUL aborted"),
"22e14f4":("C13","a file name extension that is not UTF-8 panicked"),
"aecf41f":("C06","or_get_extract_thumbnail and or_get_extract_rawdata differed from the rawfile's"),
"dbf0397":("C04","an MRW file without a readable TTW block panicked"),
"2acedc9":("C04","ARW short camera settings, white balance or private data panicked"),
"694f66e":("C19","unpacking allocated by declared dimensions whatever the data"),
}
import json,os
extra=json.load(open('/verif/tools/fixed_extra.json')) if os.path.exists('/verif/tools/fixed_extra.json') else {}
m.update({k:tuple(v) for k,v in extra.items()})
out=["# known: property=<id><TAB>class=<violation class prefix><TAB><what fails>   suppresses that class only",
"# fixed: property=<id> <commit> <what failed>                                suppresses nothing"]
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines()[1:]:
    h,s=l.split(" ",1)
    if h not in m: print("MISSING",l); continue
    out.append(f"fixed: property={m[h][0]} {h} {m[h][1]}")
for skip in ("false", "true"):
    out.append(f"known: property=C03\tclass=wrong:Raw({skip}) of unpacked rw2\ta truncated RW2 whose raw data is stored in 16 bits is taken for packed in 12 bits: the storage is told by the length of what is left of the file")
p='/verif/known-findings.txt'
kn=[l for l in open(p) if l.startswith("known:")] if os.path.exists(p) else []
open(p,'w').write("\n".join(out)+"\n"+"".join(k for k in dict.fromkeys(kn) if k.strip() not in out))
