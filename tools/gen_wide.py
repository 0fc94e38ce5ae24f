# writes harness/src/wide_table.rs: for every storage, every power of two it accepts with both neighbours
out=[]
lim={'v8':8,'v16':16,'v32':32,'vs':32,'v64':63,'v128':63}
for m,l in lim.items():
    # 2^b-1 needs >=2 variants
    out.append(f"els!(v, {m}, 2, 3);")
    bs=[b for b in range(2,l)]
    if m in('v64','v128','v32','vs'):
        # the interesting powers; the rest alternate between storages to bound build time
        keep={2,3,4,5,6,7,8,9,10,11,12,13,15,16,17,20,21,22,24,25,26,30,31,32,33,34,40,42,43,48,50,60,61,62,63}
        bs=[b for b in bs if b in keep]
    for b in bs: out.append(f"p!({m}, {b});")
    if l<63:
        out.append(f"els!(v, {m}, (1u64 << {l}) - 1, 1u64 << {l});")
    else:
        out.append(f"p!({m}, 63); els!(v, {m}, u64::MAX - 1, u64::MAX);")
open('/verif/harness/src/wide_table.rs','w').write('{\n'+'\n'.join(out)+'\n}\n')
