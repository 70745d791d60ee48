#!/usr/bin/env python3
"""Writes the 'fixed' list of known_findings.json from the commits in /repo."""
import json, subprocess
P = {  # subject -> (property, what failed)
"compute transform-domain distortion without i32 overflow": ("C05", "debug/overflow panic (wrong distortion in release) in tx-domain distortion of high bit depth blocks"),
"code chroma film grain fields only when chroma points are coded": ("C01", "film grain headers with chroma scaling from luma or no chroma points could not be parsed back"),
"apply self-guided restoration when CDEF is disabled": ("C01", "reconstruction differed from the decoders with cdef off and self-guided restoration on"),
"bound the extrapolated transform-domain rate estimate": ("C05", "overflow panic in the extrapolated rate estimate"),
"do not run high-bitdepth assembly on 8-bit video in 16-bit storage": ("C01", "8-bit video in u16 pictures was corrupted by the high bit depth kernels"),
"keep the rate control target within the quantizer range": ("C05", "rate control asked for quantizers outside the table (panic)"),
"keep partitions at 8x8 or above for inter frames other than 4:2:0": ("C05", "4:2:2/4:4:4 inter frames with small partitions panicked"),
"keep T.35 metadata for the packet that shows its frame": ("C08", "T.35 metadata of reordered frames was lost or attached to another packet"),
"make the av1C record agree with the sequence header": ("C09", "av1C record contradicted the sequence header (level, tier, chroma position, monochrome)"),
"refuse AV1 levels below 2.0 in the C configuration parser": ("C14", "arithmetic overflow when parsing level < 2.0 through the C API"),
"refuse pass data buffers announcing an unrepresentable length": ("C14", "overflow in rav1e_rc_second_pass_data_required / rav1e_twopass_in for hostile lengths"),
"keep frame parameters in the parallel GOP channel": ("C13", "forced key frames, opaque and T.35 data were dropped by the parallel GOP channel"),
"disconnect the channels instead of aborting when a peer is gone or pass data is invalid": ("C13", "dropping a receiver or invalid pass data aborted the process from inside the encoding threads"),
"let the second pass channel encode a single frame": ("C13", "a second-pass channel with one frame never produced it"),
"keep the parallel GOP accounting threads out of the encoder thread pool": ("C13", "parallel GOP channel with one thread deadlocked"),
"correct the maximum picture size of level 4.1": ("C07", "pictures ten times larger than level 4.1 allows were accepted"),
"check the display rate of a level against frames per second": ("C07", "level display rate limit compared with the inverse frame rate"),
"do not panic when the tile rate limit exceeds the possible tile rows": ("C07", "accepted configurations with extreme frame rates panicked in the tile layout"),
"reach the finest tile layout when it is needed for the requested tiles": ("C18", "tiles=4 on 128x128 produced 2 tiles although 4 are possible"),
"respect the tile height limit of large 4:2:2 pictures": ("C18", "4:2:2 pictures above 9.4 Mpixel got a tile layout that the tile header cannot express"),
}
import os
extra = os.path.join(os.path.dirname(__file__), 'fixed_more.json')
if os.path.exists(extra): P.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
log = subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','e116317..HEAD'],text=True)
out=[]
for l in log.splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    p,w=P[s[5:]]
    out.append(f"fixed: property={p} {h} {w}")
f='/verif/known_findings.json'
k=json.load(open(f)); k['fixed']=out; json.dump(k,open(f,'w'),indent=1); open(f,'a').write('\n')
