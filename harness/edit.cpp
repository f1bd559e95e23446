// Construction, copies, digit editing, subscripts, descriptor.
#include "vp.h"

// tape: descriptor n digits (most significant first)    out: the number
template <class N> static void ctor() {
    typedef typename N::bn_single S;
    typedef vp_num<S> M;
    bn_desc_t d = (bn_desc_t)(int)vp_in();
    uint64_t n = vp_in();
    S v[520];
    for (uint64_t i = 0; i < n && i < 520; ++i) v[i] = M::mk(vp_in());
    switch (n) {
        case 0: { N x(d, {}); vp_wr(x); } break;
        case 1: { N x(d, {v[0]}); vp_wr(x); } break;
        case 2: { N x(d, {v[0], v[1]}); vp_wr(x); } break;
        case 3: { N x(d, {v[0], v[1], v[2]}); vp_wr(x); } break;
        case 4: { N x(d, {v[0], v[1], v[2], v[3]}); vp_wr(x); } break;
        case 5: { N x(d, {v[0], v[1], v[2], v[3], v[4]}); vp_wr(x); } break;
        case 6: { N x(d, {v[0], v[1], v[2], v[3], v[4], v[5]}); vp_wr(x); } break;
        case 7: { N x(d, {v[0], v[1], v[2], v[3], v[4], v[5], v[6]}); vp_wr(x); } break;
        case 17: { N x(d, {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15],
            v[16]}); vp_wr(x); } break;
        case 260: { N x(d, {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15],
            v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30],
            v[31], v[32], v[33], v[34], v[35], v[36], v[37], v[38], v[39], v[40], v[41], v[42], v[43], v[44], v[45],
            v[46], v[47], v[48], v[49], v[50], v[51], v[52], v[53], v[54], v[55], v[56], v[57], v[58], v[59], v[60],
            v[61], v[62], v[63], v[64], v[65], v[66], v[67], v[68], v[69], v[70], v[71], v[72], v[73], v[74], v[75],
            v[76], v[77], v[78], v[79], v[80], v[81], v[82], v[83], v[84], v[85], v[86], v[87], v[88], v[89], v[90],
            v[91], v[92], v[93], v[94], v[95], v[96], v[97], v[98], v[99], v[100], v[101], v[102], v[103], v[104],
            v[105], v[106], v[107], v[108], v[109], v[110], v[111], v[112], v[113], v[114], v[115], v[116], v[117],
            v[118], v[119], v[120], v[121], v[122], v[123], v[124], v[125], v[126], v[127], v[128], v[129], v[130],
            v[131], v[132], v[133], v[134], v[135], v[136], v[137], v[138], v[139], v[140], v[141], v[142], v[143],
            v[144], v[145], v[146], v[147], v[148], v[149], v[150], v[151], v[152], v[153], v[154], v[155], v[156],
            v[157], v[158], v[159], v[160], v[161], v[162], v[163], v[164], v[165], v[166], v[167], v[168], v[169],
            v[170], v[171], v[172], v[173], v[174], v[175], v[176], v[177], v[178], v[179], v[180], v[181], v[182],
            v[183], v[184], v[185], v[186], v[187], v[188], v[189], v[190], v[191], v[192], v[193], v[194], v[195],
            v[196], v[197], v[198], v[199], v[200], v[201], v[202], v[203], v[204], v[205], v[206], v[207], v[208],
            v[209], v[210], v[211], v[212], v[213], v[214], v[215], v[216], v[217], v[218], v[219], v[220], v[221],
            v[222], v[223], v[224], v[225], v[226], v[227], v[228], v[229], v[230], v[231], v[232], v[233], v[234],
            v[235], v[236], v[237], v[238], v[239], v[240], v[241], v[242], v[243], v[244], v[245], v[246], v[247],
            v[248], v[249], v[250], v[251], v[252], v[253], v[254], v[255], v[256], v[257], v[258], v[259]}); vp_wr(x); } break;
        case 520: { N x(d, {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15],
            v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30],
            v[31], v[32], v[33], v[34], v[35], v[36], v[37], v[38], v[39], v[40], v[41], v[42], v[43], v[44], v[45],
            v[46], v[47], v[48], v[49], v[50], v[51], v[52], v[53], v[54], v[55], v[56], v[57], v[58], v[59], v[60],
            v[61], v[62], v[63], v[64], v[65], v[66], v[67], v[68], v[69], v[70], v[71], v[72], v[73], v[74], v[75],
            v[76], v[77], v[78], v[79], v[80], v[81], v[82], v[83], v[84], v[85], v[86], v[87], v[88], v[89], v[90],
            v[91], v[92], v[93], v[94], v[95], v[96], v[97], v[98], v[99], v[100], v[101], v[102], v[103], v[104],
            v[105], v[106], v[107], v[108], v[109], v[110], v[111], v[112], v[113], v[114], v[115], v[116], v[117],
            v[118], v[119], v[120], v[121], v[122], v[123], v[124], v[125], v[126], v[127], v[128], v[129], v[130],
            v[131], v[132], v[133], v[134], v[135], v[136], v[137], v[138], v[139], v[140], v[141], v[142], v[143],
            v[144], v[145], v[146], v[147], v[148], v[149], v[150], v[151], v[152], v[153], v[154], v[155], v[156],
            v[157], v[158], v[159], v[160], v[161], v[162], v[163], v[164], v[165], v[166], v[167], v[168], v[169],
            v[170], v[171], v[172], v[173], v[174], v[175], v[176], v[177], v[178], v[179], v[180], v[181], v[182],
            v[183], v[184], v[185], v[186], v[187], v[188], v[189], v[190], v[191], v[192], v[193], v[194], v[195],
            v[196], v[197], v[198], v[199], v[200], v[201], v[202], v[203], v[204], v[205], v[206], v[207], v[208],
            v[209], v[210], v[211], v[212], v[213], v[214], v[215], v[216], v[217], v[218], v[219], v[220], v[221],
            v[222], v[223], v[224], v[225], v[226], v[227], v[228], v[229], v[230], v[231], v[232], v[233], v[234],
            v[235], v[236], v[237], v[238], v[239], v[240], v[241], v[242], v[243], v[244], v[245], v[246], v[247],
            v[248], v[249], v[250], v[251], v[252], v[253], v[254], v[255], v[256], v[257], v[258], v[259], v[260],
            v[261], v[262], v[263], v[264], v[265], v[266], v[267], v[268], v[269], v[270], v[271], v[272], v[273],
            v[274], v[275], v[276], v[277], v[278], v[279], v[280], v[281], v[282], v[283], v[284], v[285], v[286],
            v[287], v[288], v[289], v[290], v[291], v[292], v[293], v[294], v[295], v[296], v[297], v[298], v[299],
            v[300], v[301], v[302], v[303], v[304], v[305], v[306], v[307], v[308], v[309], v[310], v[311], v[312],
            v[313], v[314], v[315], v[316], v[317], v[318], v[319], v[320], v[321], v[322], v[323], v[324], v[325],
            v[326], v[327], v[328], v[329], v[330], v[331], v[332], v[333], v[334], v[335], v[336], v[337], v[338],
            v[339], v[340], v[341], v[342], v[343], v[344], v[345], v[346], v[347], v[348], v[349], v[350], v[351],
            v[352], v[353], v[354], v[355], v[356], v[357], v[358], v[359], v[360], v[361], v[362], v[363], v[364],
            v[365], v[366], v[367], v[368], v[369], v[370], v[371], v[372], v[373], v[374], v[375], v[376], v[377],
            v[378], v[379], v[380], v[381], v[382], v[383], v[384], v[385], v[386], v[387], v[388], v[389], v[390],
            v[391], v[392], v[393], v[394], v[395], v[396], v[397], v[398], v[399], v[400], v[401], v[402], v[403],
            v[404], v[405], v[406], v[407], v[408], v[409], v[410], v[411], v[412], v[413], v[414], v[415], v[416],
            v[417], v[418], v[419], v[420], v[421], v[422], v[423], v[424], v[425], v[426], v[427], v[428], v[429],
            v[430], v[431], v[432], v[433], v[434], v[435], v[436], v[437], v[438], v[439], v[440], v[441], v[442],
            v[443], v[444], v[445], v[446], v[447], v[448], v[449], v[450], v[451], v[452], v[453], v[454], v[455],
            v[456], v[457], v[458], v[459], v[460], v[461], v[462], v[463], v[464], v[465], v[466], v[467], v[468],
            v[469], v[470], v[471], v[472], v[473], v[474], v[475], v[476], v[477], v[478], v[479], v[480], v[481],
            v[482], v[483], v[484], v[485], v[486], v[487], v[488], v[489], v[490], v[491], v[492], v[493], v[494],
            v[495], v[496], v[497], v[498], v[499], v[500], v[501], v[502], v[503], v[504], v[505], v[506], v[507],
            v[508], v[509], v[510], v[511], v[512], v[513], v[514], v[515], v[516], v[517], v[518], v[519]}); vp_wr(x); } break;
        case 40: { N x(d, {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15],
            v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31],
            v[32], v[33], v[34], v[35], v[36], v[37], v[38], v[39]}); vp_wr(x); } break;
        default: { N x(d, {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]}); vp_wr(x); } break;
    }
    N e;
    vp_wr(e);
}

// change a number: 0 nothing, 1 a digit, 2 append, 3 descriptor, 4 clear, 5 add one, 6 drop a digit
template <class N> static void change(N& x, int how) {
    typedef vp_num<typename N::bn_single> M;
    switch (how) {
        case 1: x[x.size() - 1] = M::mk(1); break;
        case 2: x.push_back(M::mk(1)); break;
        case 3: x.setDescriptor(x.getDescriptor() == BN_POS ? BN_NEG : BN_POS); break;
        case 4: x.clear(); break;
        case 5: { N one(BN_POS, {M::mk(1)}); x += one; } break;
        case 6: x.pop_front(); break;
        default: break;
    }
}

// tape: how change-which change-how source previous-target
// how: 0 copy construct, 1 copy assign, 2 self copy assign, 3 move construct, 4 move assign
// out: target, source (copies only), returned-reference-is-target, then after changing one of them: target, source
template <class N> static void copies() {
    int how = (int)vp_in(), which = (int)vp_in(), ch = (int)vp_in();
    N src;
    vp_rd(src);
    if (how == 0) {
        N t(src);
        vp_wr(t);
        vp_wr(src);
        vp_out(1);
        change(which ? src : t, ch);
        vp_wr(t);
        vp_wr(src);
    }
    else if (how == 1) {
        N t;
        vp_rd(t);
        N& r = (t = src);
        vp_wr(t);
        vp_wr(src);
        vp_out(&r == &t);
        change(which ? src : t, ch);
        vp_wr(t);
        vp_wr(src);
    }
    else if (how == 2) {
        N& alias = src;
        N& r = (src = alias);
        vp_wr(src);
        vp_out(&r == &src);
    }
    else if (how == 3) {
        N t(std::move(src));
        vp_wr(t);
        vp_out(1);
    }
    else {
        N t;
        vp_rd(t);
        N& r = (t = std::move(src));
        vp_wr(t);
        vp_out(&r == &t);
    }
}

// tape: number steps (op pos digit)*
// op: 0 push_front 1 pop_front 2 push_back 3 pop_back 4 push 5 pop 6 resize(pos) 7 resize(pos, digit) 8 x[pos] = digit
//     9 read x[pos] 10 read const
// out per step: op pos, size, the number read by index, the digit read (9, 10)
template <class N> static void edit() {
    typedef vp_num<typename N::bn_single> M;
    N x;
    vp_rd(x);
    uint64_t steps = vp_in();
    for (uint64_t s = 0; s < steps; ++s) {
        uint64_t op = vp_in(), pos = vp_in();
        typename N::bn_single d = M::mk(vp_in());
        vp_cnt(op);
        vp_cnt(pos);
        uint64_t n = x.getData().size();
        if (op == 1 || op == 3) vp_assume(n > 0);
        if (op == 4) vp_assume(pos <= n);
        if (op == 5 || op >= 8) vp_assume(pos < n);
        typename N::bn_single got = d;
        const N& c = x;
        switch (op) {
            case 0: x.push_front(d); break;
            case 1: x.pop_front(); break;
            case 2: x.push_back(d); break;
            case 3: x.pop_back(); break;
            case 4: x.push(d, pos); break;
            case 5: x.pop(pos); break;
            case 6: x.resize(pos); break;
            case 7: x.resize(pos, d); break;
            case 8: x[pos] = d; break;
            case 9: got = x[pos]; break;
            default: got = c[pos]; break;
        }
        vp_cnt(x.size());
        vp_wr(x);
        vp_out(M::get(got));
    }
}

// tape: form index digit number    form 0 const read, 1 read, 2 write; + 4: the number was longer before
// out: 0 / 1 thrown / 2 something else thrown, code, the digit read, the number
template <class N> static void subscript() {
    typedef vp_num<typename N::bn_single> M;
    int form = (int)vp_in();
    uint64_t i = vp_in();
    typename N::bn_single d = M::mk(vp_in());
    N x;
    vp_rd(x);
    if (form & 4) {
        const uint64_t n = x.size();
        x.resize(n + 5);
        x.resize(n);
        form &= 3;
    }
    const N& c = x;
    uint64_t how = 0, code = 0, got = 0;
    try {
        if (form == 0) got = M::get(c[i]);
        else if (form == 1) got = M::get(x[i]);
        else x[i] = d;
    }
    catch (bn_error_t e) { how = 1; code = (uint64_t)(int)e; }
    catch (...) { how = 2; }
    vp_out(how);
    vp_out(code);
    vp_out(got);
    vp_wr(x);
}

// tape: how descriptor number     how 0 observe, 1 setDescriptor, 2 clear
template <class N> static void desc() {
    int how = (int)vp_in();
    bn_desc_t d = (bn_desc_t)(int)vp_in();
    N x;
    vp_rd(x);
    if (how == 1) x.setDescriptor(d);
    if (how == 2) x.clear();
    vp_wr(x);
    const N& c = x;
    vp_out(c.isPositive());
    vp_out(c.isNegative());
    vp_out(c.isInfinite());
    vp_out(c.isNan());
    vp_out(N::isComputable(c.getDescriptor()));
    vp_out(N::isComputable(d));
    vp_out((uint64_t)(int)c.getDescriptor());
    vp_out(c.size());
}

#define E(k, N) \
    extern "C" void vp_ctor_##k() { ctor<N>(); } \
    extern "C" void vp_copies_##k() { copies<N>(); } \
    extern "C" void vp_edit_##k() { edit<N>(); } \
    extern "C" void vp_subscript_##k() { subscript<N>(); } \
    extern "C" void vp_desc_##k() { desc<N>(); }
VP_KINDS(E)
