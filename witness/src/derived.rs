//! Written by tools/gen_derived.py: derived requests and what they must feed to a serializer.
use crate::derive_values::*;
use crate::p::*;
use crate::requests::feeds;
use oauth1_request as oauth;

pub fn e_c31_derived_1() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        mid: DV,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|mid=", v1.s()]),
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_2() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = skip_dv)]
        mid: DV,
        after: DV,
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if !v0.skip { cat(&["|mid=", v0.s()]) } else { "" },
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_3() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        zz: DV,
        after: DV,
        #[oauth1(skip)]
        mid: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz~", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_4() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = skip_dv, skip)]
        mid: DV,
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_5() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(rename = "oauth_z")]
        mid: DV,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|oauth_z=", v1.s()]),
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_6() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(rename = "oauth_z", skip_if = skip_dv)]
        mid: DV,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if !v1.skip { cat(&["|oauth_z=", v1.s()]) } else { "" },
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_7() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        #[oauth1(rename = "oauth_z", skip)]
        mid: DV,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, mid: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_8() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        after: DV,
        #[oauth1(rename = "oauth_z", skip_if = skip_dv, skip)]
        mid: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = v2;
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_9() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        after: DV,
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o2.is_some() { cat(&["|mid=", v2.s()]) } else { "" },
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_10() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        zz: DV,
        #[oauth1(skip_if = DV::skip_by::<u8>)]
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if o2.is_some() && !v2.skip { cat(&["|mid=", v2.s()]) } else { "" },
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_11() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip)]
        mid: Option<DV>,
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_12() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = skip_dv, skip)]
        mid: Option<DV>,
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_13() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_z")]
        mid: Option<DV>,
        after: DV,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o0.is_some() { cat(&["|oauth_z=", v0.s()]) } else { "" },
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_14() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        zz: DV,
        #[oauth1(skip_if = skip_dv)]
        #[oauth1(rename = "oauth_z")]
        mid: Option<DV>,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, mid: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        if o1.is_some() && !v1.skip { cat(&["|oauth_z=", v1.s()]) } else { "" },
        cat(&["|zz~", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_15() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip)]
        #[oauth1(rename = "oauth_z")]
        mid: Option<DV>,
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_16() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = skip_dv, skip, rename = "oauth_z")]
        mid: Option<DV>,
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_17() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = true)]
        mid: Opt<DV>,
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        if o0.is_some() { cat(&["|mid=", v0.s()]) } else { "" },
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_18() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(option = true, skip_if = skip_dv)]
        mid: Opt<DV>,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if o1.is_some() && !v1.skip { cat(&["|mid=", v1.s()]) } else { "" },
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_19() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = true)]
        #[oauth1(skip)]
        mid: Opt<DV>,
        after: DV,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_20() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        after: DV,
        #[oauth1(skip_if = skip_dv, option = true, skip)]
        mid: Opt<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_21() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        zz: DV,
        #[oauth1(rename = "oauth_z", option = true)]
        mid: Opt<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if o2.is_some() { cat(&["|oauth_z=", v2.s()]) } else { "" },
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_22() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = skip_dv, rename = "oauth_z", option = true)]
        mid: Opt<DV>,
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        if o0.is_some() && !v0.skip { cat(&["|oauth_z=", v0.s()]) } else { "" },
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_23() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
        #[oauth1(skip, option = true, rename = "oauth_z")]
        mid: Opt<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz~", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_24() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
        #[oauth1(rename = "oauth_z", option = true, skip, skip_if = skip_dv)]
        mid: Opt<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz~", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_25() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        after: DV,
        #[oauth1(option = true)]
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o2.is_some() { cat(&["|mid=", v2.s()]) } else { "" },
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_26() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(option = true)]
        #[oauth1(skip_if = DV::skip_by::<u8>)]
        mid: Option<DV>,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if o1.is_some() && !v1.skip { cat(&["|mid=", v1.s()]) } else { "" },
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_27() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        zz: DV,
        after: DV,
        #[oauth1(option = true, skip)]
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz~", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_28() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
        #[oauth1(skip_if = skip_dv, option = true, skip)]
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz~", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_29() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = true)]
        #[oauth1(rename = "oauth_z")]
        mid: Option<DV>,
        #[oauth1(encoded)]
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        if o0.is_some() { cat(&["|oauth_z=", v0.s()]) } else { "" },
        cat(&["|zz~", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_30() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(rename = "oauth_z", option = true, skip_if = skip_dv)]
        mid: Option<DV>,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if o1.is_some() && !v1.skip { cat(&["|oauth_z=", v1.s()]) } else { "" },
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_31() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        zz: DV,
        #[oauth1(option = true, rename = "oauth_z", skip)]
        mid: Option<DV>,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, mid: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz~", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_32() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = true, rename = "oauth_z", skip_if = DV::skip_by::<u8>, skip)]
        mid: Option<DV>,
        after: DV,
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_33() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = false)]
        mid: shadow::Opt2,
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = shadow::Option(v0);
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|mid=", v0.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_34() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        after: DV,
        #[oauth1(skip_if = skip_opt2, option = false)]
        mid: shadow::Opt2,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = shadow::Option(v2);
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if !v2.skip { cat(&["|mid=", v2.s()]) } else { "" },
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_35() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        zz: DV,
        #[oauth1(option = false, skip)]
        mid: shadow::Opt2,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = shadow::Option(v2);
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_36() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
        #[oauth1(skip, option = false, skip_if = skip_opt2)]
        mid: shadow::Opt2,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = shadow::Option(v2);
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz~", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_37() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        #[oauth1(rename = "oauth_z")]
        #[oauth1(option = false)]
        mid: shadow::Opt2,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = shadow::Option(v1);
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, mid: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|oauth_z=", v1.s()]),
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_38() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(rename = "oauth_z", option = false, skip_if = skip_opt2)]
        mid: shadow::Opt2,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = shadow::Option(v1);
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if !v1.skip { cat(&["|oauth_z=", v1.s()]) } else { "" },
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_39() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        zz: DV,
        #[oauth1(rename = "oauth_z", option = false, skip)]
        mid: shadow::Opt2,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = shadow::Option(v2);
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_40() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        zz: DV,
        #[oauth1(rename = "oauth_z", option = false, skip, skip_if = crate::derive_values::skip_opt2)]
        mid: shadow::Opt2,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = shadow::Option(v2);
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_41() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        zz: DV,
        #[oauth1(fmt = fmt_dv)]
        mid: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|mid=", cat(&["F(", v2.s(), ")"])]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_42() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
        #[oauth1(skip_if = skip_dv, fmt = <DV>::fmt_by)]
        mid: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = v2;
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if !v2.skip { cat(&["|mid=", cat(&["F(", v2.s(), ")"])]) } else { "" },
        cat(&["|zz~", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_43() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        #[oauth1(skip, fmt = fmt_dv)]
        mid: DV,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, mid: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_44() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip, skip_if = skip_dv, fmt = <DV>::fmt_by)]
        mid: DV,
        after: DV,
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_45() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        zz: DV,
        #[oauth1(fmt = fmt_dv, rename = "oauth_z")]
        mid: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|oauth_z=", cat(&["F(", v2.s(), ")"])]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_46() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(rename = "oauth_z", skip_if = skip_dv, fmt = fmt_dv)]
        mid: DV,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if !v1.skip { cat(&["|oauth_z=", cat(&["F(", v1.s(), ")"])]) } else { "" },
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_47() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        zz: DV,
        #[oauth1(skip, fmt = <DV>::fmt_by, rename = "oauth_z")]
        mid: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_48() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        #[oauth1(fmt = fmt_dv, rename = "oauth_z", skip, skip_if = skip_dv)]
        mid: DV,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, mid: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_49() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(fmt = fmt_dv)]
        mid: Option<DV>,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if o1.is_some() { cat(&["|mid=", cat(&["F(", v1.s(), ")"])]) } else { "" },
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_50() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(fmt = <DV>::fmt_by, skip_if = skip_dv)]
        mid: Option<DV>,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if o1.is_some() && !v1.skip { cat(&["|mid=", cat(&["F(", v1.s(), ")"])]) } else { "" },
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_51() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip, fmt = fmt_dv)]
        mid: Option<DV>,
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_52() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        zz: DV,
        #[oauth1(skip)]
        #[oauth1(fmt = <DV>::fmt_by)]
        #[oauth1(skip_if = skip_dv)]
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_53() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(fmt = fmt_dv)]
        #[oauth1(rename = "oauth_z")]
        mid: Option<DV>,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if o1.is_some() { cat(&["|oauth_z=", cat(&["F(", v1.s(), ")"])]) } else { "" },
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_54() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(rename = "oauth_z")]
        #[oauth1(skip_if = skip_dv)]
        #[oauth1(fmt = fmt_dv)]
        mid: Option<DV>,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if o1.is_some() && !v1.skip { cat(&["|oauth_z=", cat(&["F(", v1.s(), ")"])]) } else { "" },
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_55() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        after: DV,
        #[oauth1(fmt = fmt_dv)]
        #[oauth1(skip)]
        #[oauth1(rename = "oauth_z")]
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_56() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip, rename = "oauth_z", skip_if = DV::skip_by::<u8>, fmt = <DV>::fmt_by)]
        mid: Option<DV>,
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_57() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(fmt = fmt_dv)]
        #[oauth1(option = true)]
        mid: Opt<DV>,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if o1.is_some() { cat(&["|mid=", cat(&["F(", v1.s(), ")"])]) } else { "" },
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_58() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        after: DV,
        #[oauth1(option = true)]
        #[oauth1(fmt = <DV>::fmt_by)]
        #[oauth1(skip_if = skip_dv)]
        mid: Opt<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o2.is_some() && !v2.skip { cat(&["|mid=", cat(&["F(", v2.s(), ")"])]) } else { "" },
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_59() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(fmt = fmt_dv)]
        #[oauth1(option = true)]
        #[oauth1(skip)]
        mid: Opt<DV>,
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_60() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        after: DV,
        #[oauth1(option = true, skip_if = DV::skip_by::<u8>, fmt = fmt_dv, skip)]
        mid: Opt<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_61() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = true, rename = "oauth_z", fmt = <DV>::fmt_by)]
        mid: Opt<DV>,
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        if o0.is_some() { cat(&["|oauth_z=", cat(&["F(", v0.s(), ")"])]) } else { "" },
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_62() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = skip_dv)]
        #[oauth1(rename = "oauth_z")]
        #[oauth1(option = true)]
        #[oauth1(fmt = <DV>::fmt_by)]
        mid: Opt<DV>,
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o0.is_some() && !v0.skip { cat(&["|oauth_z=", cat(&["F(", v0.s(), ")"])]) } else { "" },
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_63() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_z", option = true, fmt = fmt_dv, skip)]
        mid: Opt<DV>,
        #[oauth1(encoded)]
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz~", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_64() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = skip_dv, option = true, skip, rename = "oauth_z", fmt = fmt_dv)]
        mid: Opt<DV>,
        after: DV,
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_65() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(fmt = fmt_dv)]
        #[oauth1(option = true)]
        mid: Option<DV>,
        after: DV,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o0.is_some() { cat(&["|mid=", cat(&["F(", v0.s(), ")"])]) } else { "" },
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_66() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        zz: DV,
        #[oauth1(fmt = fmt_dv)]
        #[oauth1(option = true)]
        #[oauth1(skip_if = DV::skip_by::<u8>)]
        mid: Option<DV>,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, mid: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        if o1.is_some() && !v1.skip { cat(&["|mid=", cat(&["F(", v1.s(), ")"])]) } else { "" },
        cat(&["|zz~", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_67() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(fmt = fmt_dv, option = true, skip)]
        mid: Option<DV>,
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_68() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        zz: DV,
        #[oauth1(skip_if = DV::skip_by::<u8>, fmt = fmt_dv, option = true, skip)]
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_69() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        zz: DV,
        after: DV,
        #[oauth1(rename = "oauth_z", fmt = <DV>::fmt_by, option = true)]
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o2.is_some() { cat(&["|oauth_z=", cat(&["F(", v2.s(), ")"])]) } else { "" },
        cat(&["|zz~", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_70() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = skip_dv, fmt = fmt_dv, rename = "oauth_z", option = true)]
        mid: Option<DV>,
        #[oauth1(encoded)]
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        if o0.is_some() && !v0.skip { cat(&["|oauth_z=", cat(&["F(", v0.s(), ")"])]) } else { "" },
        cat(&["|zz~", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_71() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        #[oauth1(skip, rename = "oauth_z", option = true, fmt = <DV>::fmt_by)]
        mid: Option<DV>,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, mid: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_72() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_z")]
        #[oauth1(option = true)]
        #[oauth1(skip_if = skip_dv)]
        #[oauth1(fmt = fmt_dv)]
        #[oauth1(skip)]
        mid: Option<DV>,
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_73() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(option = false, fmt = fmt_opt)]
        mid: Option<DV>,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|mid=", cat(&["F(", opt_s(&o1), ")"])]),
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_74() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = false, fmt = fmt_opt, skip_if = skip_opt)]
        mid: Option<DV>,
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        if !skip_opt(&o0) { cat(&["|mid=", cat(&["F(", opt_s(&o0), ")"])]) } else { "" },
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_75() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(option = false)]
        #[oauth1(skip)]
        #[oauth1(fmt = fmt_opt)]
        mid: Option<DV>,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_76() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = crate::derive_values::skip_opt, option = false, skip, fmt = fmt_opt)]
        mid: Option<DV>,
        after: DV,
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_77() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        zz: DV,
        #[oauth1(rename = "oauth_z")]
        #[oauth1(option = false)]
        #[oauth1(fmt = fmt_opt)]
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|oauth_z=", cat(&["F(", opt_s(&o2), ")"])]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_78() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        after: DV,
        #[oauth1(rename = "oauth_z", fmt = fmt_opt, skip_if = crate::derive_values::skip_opt, option = false)]
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if !skip_opt(&o2) { cat(&["|oauth_z=", cat(&["F(", opt_s(&o2), ")"])]) } else { "" },
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_79() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(fmt = fmt_opt)]
        #[oauth1(rename = "oauth_z")]
        #[oauth1(option = false)]
        #[oauth1(skip)]
        mid: Option<DV>,
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_80() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        zz: DV,
        #[oauth1(option = false)]
        #[oauth1(fmt = fmt_opt)]
        #[oauth1(skip)]
        #[oauth1(rename = "oauth_z")]
        #[oauth1(skip_if = crate::derive_values::skip_opt)]
        mid: Option<DV>,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, mid: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz~", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_81() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        zz: DV,
        #[oauth1(encoded)]
        mid: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|mid~", v2.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_82() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded, skip_if = skip_dv)]
        mid: DV,
        after: DV,
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if !v0.skip { cat(&["|mid~", v0.s()]) } else { "" },
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_83() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        zz: DV,
        after: DV,
        #[oauth1(skip, encoded)]
        mid: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz~", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_84() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        zz: DV,
        #[oauth1(skip_if = skip_dv, encoded, skip)]
        mid: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = v2;
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_85() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        zz: DV,
        #[oauth1(rename = "oauth_z", encoded)]
        mid: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|oauth_z~", v2.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_86() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        zz: DV,
        #[oauth1(skip_if = skip_dv, encoded, rename = "oauth_z")]
        mid: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = v2;
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if !v2.skip { cat(&["|oauth_z~", v2.s()]) } else { "" },
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_87() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        after: DV,
        #[oauth1(rename = "oauth_z", encoded, skip)]
        mid: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_88() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        after: DV,
        #[oauth1(skip_if = skip_dv, rename = "oauth_z", encoded, skip)]
        mid: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = v2;
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_89() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        mid: Option<DV>,
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o0.is_some() { cat(&["|mid~", v0.s()]) } else { "" },
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_90() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(skip_if = skip_dv, encoded)]
        mid: Option<DV>,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if o1.is_some() && !v1.skip { cat(&["|mid~", v1.s()]) } else { "" },
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_91() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(encoded)]
        #[oauth1(skip)]
        mid: Option<DV>,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_92() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = skip_dv)]
        #[oauth1(encoded)]
        #[oauth1(skip)]
        mid: Option<DV>,
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_93() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        #[oauth1(rename = "oauth_z")]
        mid: Option<DV>,
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        if o0.is_some() { cat(&["|oauth_z~", v0.s()]) } else { "" },
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_94() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        #[oauth1(encoded, skip_if = skip_dv, rename = "oauth_z")]
        mid: Option<DV>,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, mid: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        if o1.is_some() && !v1.skip { cat(&["|oauth_z~", v1.s()]) } else { "" },
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_95() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(rename = "oauth_z", encoded, skip)]
        mid: Option<DV>,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_96() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        #[oauth1(skip_if = DV::skip_by::<u8>, encoded, skip, rename = "oauth_z")]
        mid: Option<DV>,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, mid: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_97() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        after: DV,
        #[oauth1(encoded, option = true)]
        mid: Opt<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o2.is_some() { cat(&["|mid~", v2.s()]) } else { "" },
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_98() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
        #[oauth1(option = true)]
        #[oauth1(encoded)]
        #[oauth1(skip_if = skip_dv)]
        mid: Opt<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if o2.is_some() && !v2.skip { cat(&["|mid~", v2.s()]) } else { "" },
        cat(&["|zz~", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_99() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        #[oauth1(option = true, skip, encoded)]
        mid: Opt<DV>,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, mid: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_100() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        #[oauth1(skip, skip_if = skip_dv, option = true, encoded)]
        mid: Opt<DV>,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, mid: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_101() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        after: DV,
        #[oauth1(encoded)]
        #[oauth1(option = true)]
        #[oauth1(rename = "oauth_z")]
        mid: Opt<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o2.is_some() { cat(&["|oauth_z~", v2.s()]) } else { "" },
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_102() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
        #[oauth1(rename = "oauth_z")]
        #[oauth1(encoded)]
        #[oauth1(option = true)]
        #[oauth1(skip_if = skip_dv)]
        mid: Opt<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if o2.is_some() && !v2.skip { cat(&["|oauth_z~", v2.s()]) } else { "" },
        cat(&["|zz~", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_103() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_z", skip, encoded, option = true)]
        mid: Opt<DV>,
        #[oauth1(encoded)]
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz~", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_104() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_z", option = true, encoded, skip, skip_if = skip_dv)]
        mid: Opt<DV>,
        after: DV,
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_105() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        zz: DV,
        #[oauth1(option = true, encoded)]
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if o2.is_some() { cat(&["|mid~", v2.s()]) } else { "" },
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_106() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = true, skip_if = DV::skip_by::<u8>, encoded)]
        mid: Option<DV>,
        after: DV,
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o0.is_some() && !v0.skip { cat(&["|mid~", v0.s()]) } else { "" },
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_107() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        after: DV,
        #[oauth1(option = true)]
        #[oauth1(skip)]
        #[oauth1(encoded)]
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_108() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
        #[oauth1(skip, option = true, encoded, skip_if = skip_dv)]
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz~", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_109() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        after: DV,
        #[oauth1(rename = "oauth_z", option = true, encoded)]
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o2.is_some() { cat(&["|oauth_z~", v2.s()]) } else { "" },
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_110() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
        #[oauth1(skip_if = skip_dv, option = true, rename = "oauth_z", encoded)]
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if o2.is_some() && !v2.skip { cat(&["|oauth_z~", v2.s()]) } else { "" },
        cat(&["|zz~", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_111() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        zz: DV,
        after: DV,
        #[oauth1(rename = "oauth_z", option = true, skip, encoded)]
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz~", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_112() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        #[oauth1(option = true, rename = "oauth_z", skip_if = skip_dv, encoded, skip)]
        mid: Option<DV>,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, mid: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_113() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        #[oauth1(option = false)]
        #[oauth1(encoded)]
        mid: shadow::Opt2,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = shadow::Option(v1);
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, mid: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|mid~", v1.s()]),
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_114() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = false, skip_if = crate::derive_values::skip_opt2, encoded)]
        mid: shadow::Opt2,
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = shadow::Option(v0);
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        if !v0.skip { cat(&["|mid~", v0.s()]) } else { "" },
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_115() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
        #[oauth1(skip)]
        #[oauth1(encoded)]
        #[oauth1(option = false)]
        mid: shadow::Opt2,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = shadow::Option(v2);
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz~", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_116() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = false, encoded, skip_if = skip_opt2, skip)]
        mid: shadow::Opt2,
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = shadow::Option(v0);
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_117() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        zz: DV,
        #[oauth1(option = false, encoded, rename = "oauth_z")]
        mid: shadow::Opt2,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = shadow::Option(v2);
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|oauth_z~", v2.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_118() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        after: DV,
        #[oauth1(skip_if = skip_opt2, rename = "oauth_z", option = false, encoded)]
        mid: shadow::Opt2,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = shadow::Option(v2);
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if !v2.skip { cat(&["|oauth_z~", v2.s()]) } else { "" },
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_119() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
        #[oauth1(option = false, skip, encoded, rename = "oauth_z")]
        mid: shadow::Opt2,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = shadow::Option(v2);
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz~", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_120() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        zz: DV,
        #[oauth1(encoded, skip, option = false, rename = "oauth_z", skip_if = crate::derive_values::skip_opt2)]
        mid: shadow::Opt2,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = shadow::Option(v1);
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, mid: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz~", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_121() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded, fmt = fmt_dv)]
        mid: DV,
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|mid~", cat(&["F(", v0.s(), ")"])]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_122() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = skip_dv, encoded, fmt = fmt_dv)]
        mid: DV,
        #[oauth1(encoded)]
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        if !v0.skip { cat(&["|mid~", cat(&["F(", v0.s(), ")"])]) } else { "" },
        cat(&["|zz~", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_123() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(encoded, fmt = fmt_dv, skip)]
        mid: DV,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_124() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip)]
        #[oauth1(encoded)]
        #[oauth1(skip_if = DV::skip_by::<u8>)]
        #[oauth1(fmt = fmt_dv)]
        mid: DV,
        after: DV,
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_125() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        after: DV,
        #[oauth1(fmt = fmt_dv, rename = "oauth_z", encoded)]
        mid: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|oauth_z~", cat(&["F(", v2.s(), ")"])]),
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_126() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded, fmt = <DV>::fmt_by, skip_if = skip_dv, rename = "oauth_z")]
        mid: DV,
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        if !v0.skip { cat(&["|oauth_z~", cat(&["F(", v0.s(), ")"])]) } else { "" },
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_127() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(fmt = fmt_dv)]
        #[oauth1(skip)]
        #[oauth1(rename = "oauth_z")]
        #[oauth1(encoded)]
        mid: DV,
        #[oauth1(encoded)]
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz~", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_128() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip, rename = "oauth_z", skip_if = DV::skip_by::<u8>, fmt = <DV>::fmt_by, encoded)]
        mid: DV,
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_129() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
        #[oauth1(fmt = fmt_dv, encoded)]
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if o2.is_some() { cat(&["|mid~", cat(&["F(", v2.s(), ")"])]) } else { "" },
        cat(&["|zz~", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_130() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        after: DV,
        #[oauth1(skip_if = DV::skip_by::<u8>, encoded, fmt = fmt_dv)]
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o2.is_some() && !v2.skip { cat(&["|mid~", cat(&["F(", v2.s(), ")"])]) } else { "" },
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_131() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(fmt = fmt_dv, skip, encoded)]
        mid: Option<DV>,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_132() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(fmt = fmt_dv, encoded, skip_if = skip_dv, skip)]
        mid: Option<DV>,
        after: DV,
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_133() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        zz: DV,
        #[oauth1(encoded)]
        #[oauth1(rename = "oauth_z")]
        #[oauth1(fmt = fmt_dv)]
        mid: Option<DV>,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, mid: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        if o1.is_some() { cat(&["|oauth_z~", cat(&["F(", v1.s(), ")"])]) } else { "" },
        cat(&["|zz~", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_134() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = skip_dv, rename = "oauth_z", encoded, fmt = <DV>::fmt_by)]
        mid: Option<DV>,
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o0.is_some() && !v0.skip { cat(&["|oauth_z~", cat(&["F(", v0.s(), ")"])]) } else { "" },
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_135() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip, encoded, fmt = <DV>::fmt_by, rename = "oauth_z")]
        mid: Option<DV>,
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_136() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        zz: DV,
        #[oauth1(rename = "oauth_z", skip_if = DV::skip_by::<u8>, skip, encoded, fmt = <DV>::fmt_by)]
        mid: Option<DV>,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, mid: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz~", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_137() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        #[oauth1(option = true)]
        #[oauth1(fmt = fmt_dv)]
        mid: Opt<DV>,
        after: DV,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o0.is_some() { cat(&["|mid~", cat(&["F(", v0.s(), ")"])]) } else { "" },
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_138() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        zz: DV,
        #[oauth1(skip_if = skip_dv, fmt = <DV>::fmt_by, option = true, encoded)]
        mid: Opt<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { after: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if o2.is_some() && !v2.skip { cat(&["|mid~", cat(&["F(", v2.s(), ")"])]) } else { "" },
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_139() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(option = true, fmt = fmt_dv, skip, encoded)]
        mid: Opt<DV>,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_140() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded, skip_if = skip_dv, fmt = fmt_dv, skip, option = true)]
        mid: Opt<DV>,
        after: DV,
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_141() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(fmt = fmt_dv)]
        #[oauth1(encoded)]
        #[oauth1(rename = "oauth_z")]
        #[oauth1(option = true)]
        mid: Opt<DV>,
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o0.is_some() { cat(&["|oauth_z~", cat(&["F(", v0.s(), ")"])]) } else { "" },
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_142() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        zz: DV,
        after: DV,
        #[oauth1(fmt = <DV>::fmt_by)]
        #[oauth1(rename = "oauth_z")]
        #[oauth1(encoded)]
        #[oauth1(option = true)]
        #[oauth1(skip_if = DV::skip_by::<u8>)]
        mid: Opt<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o2.is_some() && !v2.skip { cat(&["|oauth_z~", cat(&["F(", v2.s(), ")"])]) } else { "" },
        cat(&["|zz~", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_143() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(fmt = fmt_dv)]
        #[oauth1(encoded)]
        #[oauth1(option = true)]
        #[oauth1(skip)]
        #[oauth1(rename = "oauth_z")]
        mid: Opt<DV>,
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_144() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(rename = "oauth_z")]
        #[oauth1(fmt = <DV>::fmt_by)]
        #[oauth1(encoded)]
        #[oauth1(skip_if = skip_dv)]
        #[oauth1(skip)]
        #[oauth1(option = true)]
        mid: Opt<DV>,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_145() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        after: DV,
        #[oauth1(option = true, encoded, fmt = fmt_dv)]
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o2.is_some() { cat(&["|mid~", cat(&["F(", v2.s(), ")"])]) } else { "" },
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_146() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = DV::skip_by::<u8>, fmt = fmt_dv, encoded, option = true)]
        mid: Option<DV>,
        after: DV,
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o0.is_some() && !v0.skip { cat(&["|mid~", cat(&["F(", v0.s(), ")"])]) } else { "" },
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_147() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(skip, fmt = fmt_dv, option = true, encoded)]
        mid: Option<DV>,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_148() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded, skip_if = DV::skip_by::<u8>, option = true, fmt = <DV>::fmt_by, skip)]
        mid: Option<DV>,
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_149() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        after: DV,
        #[oauth1(rename = "oauth_z")]
        #[oauth1(encoded)]
        #[oauth1(fmt = <DV>::fmt_by)]
        #[oauth1(option = true)]
        mid: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { zz: o0, after: o1, mid: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o2.is_some() { cat(&["|oauth_z~", cat(&["F(", v2.s(), ")"])]) } else { "" },
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_150() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = DV::skip_by::<u8>)]
        #[oauth1(option = true)]
        #[oauth1(rename = "oauth_z")]
        #[oauth1(encoded)]
        #[oauth1(fmt = fmt_dv)]
        mid: Option<DV>,
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        if o0.is_some() && !v0.skip { cat(&["|oauth_z~", cat(&["F(", v0.s(), ")"])]) } else { "" },
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_151() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip, option = true, encoded, fmt = fmt_dv, rename = "oauth_z")]
        mid: Option<DV>,
        after: DV,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_152() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = true)]
        #[oauth1(fmt = fmt_dv)]
        #[oauth1(skip)]
        #[oauth1(encoded)]
        #[oauth1(rename = "oauth_z")]
        #[oauth1(skip_if = DV::skip_by::<u8>)]
        mid: Option<DV>,
        after: DV,
        zz: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_153() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = false)]
        #[oauth1(encoded)]
        #[oauth1(fmt = fmt_opt)]
        mid: Option<DV>,
        after: DV,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|mid~", cat(&["F(", opt_s(&o0), ")"])]),
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_154() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(skip_if = skip_opt)]
        #[oauth1(encoded)]
        #[oauth1(option = false)]
        #[oauth1(fmt = fmt_opt)]
        mid: Option<DV>,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if !skip_opt(&o1) { cat(&["|mid~", cat(&["F(", opt_s(&o1), ")"])]) } else { "" },
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_155() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        #[oauth1(option = false)]
        #[oauth1(encoded)]
        #[oauth1(fmt = fmt_opt)]
        #[oauth1(skip)]
        mid: Option<DV>,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, mid: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_156() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(option = false)]
        #[oauth1(skip)]
        #[oauth1(fmt = fmt_opt)]
        #[oauth1(encoded)]
        #[oauth1(skip_if = skip_opt)]
        mid: Option<DV>,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_157() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded, rename = "oauth_z", fmt = fmt_opt, option = false)]
        mid: Option<DV>,
        after: DV,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, after: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v1.s()]),
        cat(&["|oauth_z~", cat(&["F(", opt_s(&o0), ")"])]),
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_158() {
    #[derive(oauth::Request)]
    struct R {
        after: DV,
        #[oauth1(option = false, encoded, skip_if = skip_opt, fmt = crate::derive_values::fmt_opt, rename = "oauth_z")]
        mid: Option<DV>,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { after: o0, mid: o1, zz: o2 };
    let want = cat(&[cat(&["|after=", v0.s()]),
        if !skip_opt(&o1) { cat(&["|oauth_z~", cat(&["F(", opt_s(&o1), ")"])]) } else { "" },
        cat(&["|zz=", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_159() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        #[oauth1(rename = "oauth_z", option = false, fmt = crate::derive_values::fmt_opt, skip, encoded)]
        mid: Option<DV>,
        after: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { zz: o0, mid: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_160() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        #[oauth1(option = false)]
        #[oauth1(rename = "oauth_z")]
        #[oauth1(skip)]
        #[oauth1(fmt = crate::derive_values::fmt_opt)]
        #[oauth1(skip_if = skip_opt)]
        mid: Option<DV>,
        zz: DV,
        after: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, after: o2 };
    let want = cat(&[cat(&["|after=", v2.s()]),
        cat(&["|zz=", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_161() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip, option = false, rename = "r.mid", skip_if = crate::derive_values::skip_opt2)]
        mid: shadow::Opt2,
        #[oauth1(fmt = <DV>::fmt_by)]
        #[oauth1(rename = "r.ab")]
        ab: DV,
        #[oauth1(skip_if = skip_dv, rename = "oauth_z")]
        z: Option<DV>,
    }
    let v0 = DV::fresh(true);
    let o0 = shadow::Option(v0);
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { mid: o0, ab: o1, z: o2 };
    let want = cat(&[if o2.is_some() && !v2.skip { cat(&["|oauth_z=", v2.s()]) } else { "" },
        cat(&["|r.ab=", cat(&["F(", v1.s(), ")"])])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_162() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(fmt = <DV>::fmt_by, rename = "r.aa", skip_if = skip_dv, option = false)]
        aa: DV,
        #[oauth1(fmt = fmt_dv, rename = "r.type")]
        r#type: DV,
        #[oauth1(skip_if = DV::skip_by::<u8>)]
        #[oauth1(rename = "r.z")]
        #[oauth1(fmt = <DV>::fmt_by)]
        #[oauth1(option = true)]
        z: Opt<DV>,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { aa: o0, r#type: o1, z: o2 };
    let want = cat(&[if !v0.skip { cat(&["|r.aa=", cat(&["F(", v0.s(), ")"])]) } else { "" },
        cat(&["|r.type=", cat(&["F(", v1.s(), ")"])]),
        if o2.is_some() && !v2.skip { cat(&["|r.z=", cat(&["F(", v2.s(), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_163() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = true)]
        #[oauth1(rename = "r.zz")]
        #[oauth1(encoded)]
        #[oauth1(skip_if = skip_dv)]
        zz: Opt<DV>,
        #[oauth1(skip_if = skip_dv)]
        ab: DV,
        #[oauth1(skip_if = skip_dv, option = true, rename = "oauth_type", fmt = <DV>::fmt_by)]
        r#type: Option<DV>,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(true);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { zz: o0, ab: o1, r#type: o2 };
    let want = cat(&[if !v1.skip { cat(&["|ab=", v1.s()]) } else { "" },
        if o2.is_some() && !v2.skip { cat(&["|oauth_type=", cat(&["F(", v2.s(), ")"])]) } else { "" },
        if o0.is_some() && !v0.skip { cat(&["|r.zz~", v0.s()]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_164() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = false)]
        #[oauth1(rename = "r.oauth_w")]
        oauth_w: shadow::Opt2,
        #[oauth1(option = true, encoded, skip_if = DV::skip_by::<u8>, fmt = <DV>::fmt_by, rename = "r.aa")]
        aa: Option<DV>,
        #[oauth1(fmt = fmt_dv, skip_if = skip_dv, option = true, encoded)]
        y2: Opt<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = shadow::Option(v0);
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { oauth_w: o0, aa: o1, y2: o2 };
    let want = cat(&[if o1.is_some() && !v1.skip { cat(&["|r.aa~", cat(&["F(", v1.s(), ")"])]) } else { "" },
        cat(&["|r.oauth_w=", v0.s()]),
        if o2.is_some() && !v2.skip { cat(&["|y2~", cat(&["F(", v2.s(), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_165() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        #[oauth1(rename = "oauth_zz")]
        #[oauth1(skip_if = skip_dv)]
        #[oauth1(fmt = <DV>::fmt_by)]
        zz: Option<DV>,
        #[oauth1(skip_if = skip_dv)]
        #[oauth1(encoded)]
        b: Option<DV>,
        #[oauth1(skip_if = skip_dv)]
        r#type: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(true);
    let o2 = v2;
    let r = R { zz: o0, b: o1, r#type: o2 };
    let want = cat(&[if o1.is_some() && !v1.skip { cat(&["|b~", v1.s()]) } else { "" },
        if o0.is_some() && !v0.skip { cat(&["|oauth_zz~", cat(&["F(", v0.s(), ")"])]) } else { "" },
        if !v2.skip { cat(&["|type=", v2.s()]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_166() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = true, rename = "r.ab")]
        ab: Option<DV>,
        #[oauth1(skip)]
        #[oauth1(encoded)]
        #[oauth1(rename = "TYPE")]
        #[oauth1(option = true)]
        #[oauth1(fmt = fmt_dv)]
        r#type: Opt<DV>,
        #[oauth1(skip_if = skip_dv, fmt = fmt_dv, rename = "r.b")]
        b: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(true);
    let o2 = v2;
    let r = R { ab: o0, r#type: o1, b: o2 };
    let want = cat(&[if o0.is_some() { cat(&["|r.ab=", v0.s()]) } else { "" },
        if !v2.skip { cat(&["|r.b=", cat(&["F(", v2.s(), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_167() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(fmt = fmt_dv)]
        #[oauth1(rename = "r.mid")]
        mid: DV,
        #[oauth1(encoded)]
        aa: Option<DV>,
        #[oauth1(rename = "Y2")]
        #[oauth1(fmt = fmt_dv)]
        y2: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { mid: o0, aa: o1, y2: o2 };
    let want = cat(&[if o2.is_some() { cat(&["|Y2=", cat(&["F(", v2.s(), ")"])]) } else { "" },
        if o1.is_some() { cat(&["|aa~", v1.s()]) } else { "" },
        cat(&["|r.mid=", cat(&["F(", v0.s(), ")"])])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_168() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded, rename = "TYPE", fmt = fmt_dv, option = true, skip_if = DV::skip_by::<u8>)]
        r#type: Option<DV>,
        #[oauth1(fmt = fmt_dv)]
        #[oauth1(skip_if = skip_dv)]
        z: DV,
        #[oauth1(fmt = fmt_opt, skip_if = skip_opt, skip, rename = "oauth_ab", option = false)]
        ab: Option<DV>,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(true);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { r#type: o0, z: o1, ab: o2 };
    let want = cat(&[if o0.is_some() && !v0.skip { cat(&["|TYPE~", cat(&["F(", v0.s(), ")"])]) } else { "" },
        if !v1.skip { cat(&["|z=", cat(&["F(", v1.s(), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_169() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(fmt = fmt_dv)]
        mid: DV,
        #[oauth1(encoded)]
        b: Option<DV>,
        #[oauth1(encoded)]
        #[oauth1(rename = "AA")]
        aa: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, b: o1, aa: o2 };
    let want = cat(&[cat(&["|AA~", v2.s()]),
        if o1.is_some() { cat(&["|b~", v1.s()]) } else { "" },
        cat(&["|mid=", cat(&["F(", v0.s(), ")"])])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_170() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(fmt = <DV>::fmt_by)]
        #[oauth1(option = true)]
        z: Option<DV>,
        #[oauth1(encoded, skip_if = DV::skip_by::<u8>, rename = "r.type", option = true)]
        r#type: Opt<DV>,
        #[oauth1(encoded)]
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { z: o0, r#type: o1, zz: o2 };
    let want = cat(&[if o1.is_some() && !v1.skip { cat(&["|r.type~", v1.s()]) } else { "" },
        if o0.is_some() { cat(&["|z=", cat(&["F(", v0.s(), ")"])]) } else { "" },
        cat(&["|zz~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_171() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip)]
        #[oauth1(encoded)]
        #[oauth1(option = true)]
        r#type: Opt<DV>,
        #[oauth1(rename = "oauth_y2", option = true, encoded, skip_if = DV::skip_by::<u8>)]
        y2: Opt<DV>,
        #[oauth1(option = true)]
        #[oauth1(rename = "r.zz")]
        zz: Opt<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { r#type: o0, y2: o1, zz: o2 };
    let want = cat(&[if o1.is_some() && !v1.skip { cat(&["|oauth_y2~", v1.s()]) } else { "" },
        if o2.is_some() { cat(&["|r.zz=", v2.s()]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_172() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(fmt = <DV>::fmt_by, option = false, encoded, rename = "oauth_type", skip_if = skip_dv)]
        r#type: DV,
        #[oauth1(option = false)]
        b: DV,
        #[oauth1(fmt = fmt_opt)]
        #[oauth1(option = false)]
        #[oauth1(rename = "Y2")]
        #[oauth1(skip_if = skip_opt)]
        y2: Option<DV>,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { r#type: o0, b: o1, y2: o2 };
    let want = cat(&[if !skip_opt(&o2) { cat(&["|Y2=", cat(&["F(", opt_s(&o2), ")"])]) } else { "" },
        cat(&["|b=", v1.s()]),
        if !v0.skip { cat(&["|oauth_type~", cat(&["F(", v0.s(), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_173() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        r#type: DV,
        #[oauth1(encoded)]
        #[oauth1(option = true)]
        #[oauth1(fmt = <DV>::fmt_by)]
        #[oauth1(skip_if = skip_dv)]
        zz: Option<DV>,
        #[oauth1(encoded, fmt = <DV>::fmt_by)]
        mid: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { r#type: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|mid~", cat(&["F(", v2.s(), ")"])]),
        cat(&["|type~", v0.s()]),
        if o1.is_some() && !v1.skip { cat(&["|zz~", cat(&["F(", v1.s(), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_174() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "r.type")]
        r#type: DV,
        #[oauth1(rename = "oauth_y2", encoded, fmt = <DV>::fmt_by)]
        y2: DV,
        #[oauth1(rename = "r.oauth_w", encoded, option = true, skip_if = DV::skip_by::<u8>, fmt = fmt_dv)]
        oauth_w: Opt<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { r#type: o0, y2: o1, oauth_w: o2 };
    let want = cat(&[cat(&["|oauth_y2~", cat(&["F(", v1.s(), ")"])]),
        if o2.is_some() && !v2.skip { cat(&["|r.oauth_w~", cat(&["F(", v2.s(), ")"])]) } else { "" },
        cat(&["|r.type=", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_175() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "r.mid")]
        #[oauth1(skip_if = skip_dv)]
        #[oauth1(encoded)]
        mid: DV,
        #[oauth1(encoded, option = true)]
        ab: Option<DV>,
        #[oauth1(encoded, rename = "oauth_y2", fmt = <DV>::fmt_by, option = false)]
        y2: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, ab: o1, y2: o2 };
    let want = cat(&[if o1.is_some() { cat(&["|ab~", v1.s()]) } else { "" },
        cat(&["|oauth_y2~", cat(&["F(", v2.s(), ")"])]),
        if !v0.skip { cat(&["|r.mid~", v0.s()]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_176() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = skip_dv)]
        oauth_w: Option<DV>,
        #[oauth1(skip)]
        #[oauth1(option = true)]
        #[oauth1(rename = "oauth_ab")]
        ab: Opt<DV>,
        #[oauth1(option = false, fmt = fmt_dv, skip_if = DV::skip_by::<u8>, rename = "AA")]
        aa: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(true);
    let o2 = v2;
    let r = R { oauth_w: o0, ab: o1, aa: o2 };
    let want = cat(&[if !v2.skip { cat(&["|AA=", cat(&["F(", v2.s(), ")"])]) } else { "" },
        if o0.is_some() && !v0.skip { cat(&["|oauth_w=", v0.s()]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_177() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip)]
        aa: Option<DV>,
        #[oauth1(skip_if = DV::skip_by::<u8>, skip, encoded)]
        ab: DV,
        #[oauth1(skip_if = DV::skip_by::<u8>, fmt = fmt_dv, option = true, encoded, rename = "r.y2")]
        y2: Opt<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(true);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { aa: o0, ab: o1, y2: o2 };
    let want = cat(&[if o2.is_some() && !v2.skip { cat(&["|r.y2~", cat(&["F(", v2.s(), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_178() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = true)]
        #[oauth1(skip_if = DV::skip_by::<u8>)]
        #[oauth1(rename = "r.oauth_w")]
        oauth_w: Opt<DV>,
        #[oauth1(skip_if = crate::derive_values::skip_opt)]
        #[oauth1(option = false)]
        #[oauth1(fmt = crate::derive_values::fmt_opt)]
        zz: Option<DV>,
        #[oauth1(fmt = <DV>::fmt_by)]
        mid: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { oauth_w: o0, zz: o1, mid: o2 };
    let want = cat(&[cat(&["|mid=", cat(&["F(", v2.s(), ")"])]),
        if o0.is_some() && !v0.skip { cat(&["|r.oauth_w=", v0.s()]) } else { "" },
        if !skip_opt(&o1) { cat(&["|zz=", cat(&["F(", opt_s(&o1), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_179() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = skip_dv, skip, fmt = <DV>::fmt_by)]
        y2: DV,
        #[oauth1(rename = "oauth_ab", fmt = fmt_dv)]
        ab: DV,
        #[oauth1(option = true)]
        #[oauth1(fmt = fmt_dv)]
        #[oauth1(skip_if = skip_dv)]
        z: Opt<DV>,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { y2: o0, ab: o1, z: o2 };
    let want = cat(&[cat(&["|oauth_ab=", cat(&["F(", v1.s(), ")"])]),
        if o2.is_some() && !v2.skip { cat(&["|z=", cat(&["F(", v2.s(), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_180() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_b")]
        #[oauth1(encoded)]
        #[oauth1(fmt = fmt_dv)]
        b: Option<DV>,
        #[oauth1(skip_if = skip_dv)]
        #[oauth1(fmt = <DV>::fmt_by)]
        zz: DV,
        #[oauth1(rename = "oauth_z")]
        z: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(true);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { b: o0, zz: o1, z: o2 };
    let want = cat(&[if o0.is_some() { cat(&["|oauth_b~", cat(&["F(", v0.s(), ")"])]) } else { "" },
        cat(&["|oauth_z=", v2.s()]),
        if !v1.skip { cat(&["|zz=", cat(&["F(", v1.s(), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_181() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = false, rename = "r.y2")]
        y2: shadow::Opt2,
        #[oauth1(rename = "r.b", fmt = <DV>::fmt_by, encoded)]
        b: DV,
        #[oauth1(fmt = <DV>::fmt_by)]
        #[oauth1(encoded)]
        #[oauth1(skip_if = skip_dv)]
        r#type: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = shadow::Option(v0);
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = v2;
    let r = R { y2: o0, b: o1, r#type: o2 };
    let want = cat(&[cat(&["|r.b~", cat(&["F(", v1.s(), ")"])]),
        cat(&["|r.y2=", v0.s()]),
        if !v2.skip { cat(&["|type~", cat(&["F(", v2.s(), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_182() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_b", fmt = fmt_dv, encoded)]
        b: DV,
        #[oauth1(encoded, option = false)]
        r#type: shadow::Opt2,
        #[oauth1(fmt = <DV>::fmt_by, option = true, skip_if = DV::skip_by::<u8>)]
        y2: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = shadow::Option(v1);
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { b: o0, r#type: o1, y2: o2 };
    let want = cat(&[cat(&["|oauth_b~", cat(&["F(", v0.s(), ")"])]),
        cat(&["|type~", v1.s()]),
        if o2.is_some() && !v2.skip { cat(&["|y2=", cat(&["F(", v2.s(), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_183() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = false)]
        #[oauth1(rename = "oauth_aa")]
        #[oauth1(fmt = fmt_opt)]
        aa: Option<DV>,
        #[oauth1(encoded, rename = "oauth_y2")]
        y2: DV,
        #[oauth1(option = true)]
        mid: Opt<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { aa: o0, y2: o1, mid: o2 };
    let want = cat(&[if o2.is_some() { cat(&["|mid=", v2.s()]) } else { "" },
        cat(&["|oauth_aa=", cat(&["F(", opt_s(&o0), ")"])]),
        cat(&["|oauth_y2~", v1.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_184() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(fmt = <DV>::fmt_by)]
        mid: DV,
        #[oauth1(skip_if = DV::skip_by::<u8>)]
        #[oauth1(rename = "oauth_zz")]
        #[oauth1(fmt = fmt_dv)]
        zz: Option<DV>,
        #[oauth1(fmt = fmt_dv)]
        #[oauth1(rename = "Y2")]
        y2: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, y2: o2 };
    let want = cat(&[cat(&["|Y2=", cat(&["F(", v2.s(), ")"])]),
        cat(&["|mid=", cat(&["F(", v0.s(), ")"])]),
        if o1.is_some() && !v1.skip { cat(&["|oauth_zz=", cat(&["F(", v1.s(), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_185() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(fmt = fmt_dv)]
        z: DV,
        #[oauth1(skip_if = DV::skip_by::<u8>)]
        #[oauth1(rename = "oauth_b")]
        #[oauth1(fmt = <DV>::fmt_by)]
        b: DV,
        #[oauth1(option = false, fmt = <DV>::fmt_by, encoded)]
        ab: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { z: o0, b: o1, ab: o2 };
    let want = cat(&[cat(&["|ab~", cat(&["F(", v2.s(), ")"])]),
        if !v1.skip { cat(&["|oauth_b=", cat(&["F(", v1.s(), ")"])]) } else { "" },
        cat(&["|z=", cat(&["F(", v0.s(), ")"])])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_186() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "OAUTH_W", option = false, fmt = <DV>::fmt_by)]
        oauth_w: DV,
        #[oauth1(encoded, rename = "Z", skip, fmt = <DV>::fmt_by)]
        z: DV,
        #[oauth1(fmt = <DV>::fmt_by, option = false)]
        ab: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { oauth_w: o0, z: o1, ab: o2 };
    let want = cat(&[cat(&["|OAUTH_W=", cat(&["F(", v0.s(), ")"])]),
        cat(&["|ab=", cat(&["F(", v2.s(), ")"])])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_187() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = true, skip_if = skip_dv)]
        b: Option<DV>,
        #[oauth1(rename = "Y2", fmt = <DV>::fmt_by)]
        y2: DV,
        #[oauth1(rename = "oauth_aa")]
        #[oauth1(fmt = fmt_opt)]
        #[oauth1(encoded)]
        #[oauth1(skip_if = skip_opt)]
        #[oauth1(option = false)]
        aa: Option<DV>,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { b: o0, y2: o1, aa: o2 };
    let want = cat(&[cat(&["|Y2=", cat(&["F(", v1.s(), ")"])]),
        if o0.is_some() && !v0.skip { cat(&["|b=", v0.s()]) } else { "" },
        if !skip_opt(&o2) { cat(&["|oauth_aa~", cat(&["F(", opt_s(&o2), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_188() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "OAUTH_W")]
        #[oauth1(encoded)]
        #[oauth1(skip_if = DV::skip_by::<u8>)]
        #[oauth1(fmt = fmt_dv)]
        #[oauth1(option = true)]
        oauth_w: Opt<DV>,
        #[oauth1(encoded, option = true, fmt = fmt_dv)]
        aa: Option<DV>,
        #[oauth1(skip_if = skip_dv)]
        #[oauth1(rename = "Y2")]
        #[oauth1(fmt = <DV>::fmt_by)]
        y2: Option<DV>,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { oauth_w: o0, aa: o1, y2: o2 };
    let want = cat(&[if o0.is_some() && !v0.skip { cat(&["|OAUTH_W~", cat(&["F(", v0.s(), ")"])]) } else { "" },
        if o2.is_some() && !v2.skip { cat(&["|Y2=", cat(&["F(", v2.s(), ")"])]) } else { "" },
        if o1.is_some() { cat(&["|aa~", cat(&["F(", v1.s(), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_189() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(fmt = <DV>::fmt_by, rename = "AB", option = true)]
        ab: Opt<DV>,
        #[oauth1(rename = "r.oauth_w")]
        oauth_w: Option<DV>,
        #[oauth1(encoded, skip_if = DV::skip_by::<u8>, fmt = fmt_dv, rename = "r.y2")]
        y2: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(true);
    let o2 = v2;
    let r = R { ab: o0, oauth_w: o1, y2: o2 };
    let want = cat(&[if o0.is_some() { cat(&["|AB=", cat(&["F(", v0.s(), ")"])]) } else { "" },
        if o1.is_some() { cat(&["|r.oauth_w=", v1.s()]) } else { "" },
        if !v2.skip { cat(&["|r.y2~", cat(&["F(", v2.s(), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_190() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = skip_dv)]
        #[oauth1(encoded)]
        ab: DV,
        #[oauth1(fmt = fmt_dv)]
        #[oauth1(option = true)]
        oauth_w: Opt<DV>,
        #[oauth1(encoded)]
        r#type: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { ab: o0, oauth_w: o1, r#type: o2 };
    let want = cat(&[if !v0.skip { cat(&["|ab~", v0.s()]) } else { "" },
        if o1.is_some() { cat(&["|oauth_w=", cat(&["F(", v1.s(), ")"])]) } else { "" },
        cat(&["|type~", v2.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_191() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded, rename = "MID")]
        mid: DV,
        #[oauth1(option = true)]
        #[oauth1(rename = "r.zz")]
        #[oauth1(skip_if = skip_dv)]
        zz: Opt<DV>,
        #[oauth1(skip_if = DV::skip_by::<u8>, option = false, encoded)]
        ab: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(true);
    let o2 = v2;
    let r = R { mid: o0, zz: o1, ab: o2 };
    let want = cat(&[cat(&["|MID~", v0.s()]),
        if !v2.skip { cat(&["|ab~", v2.s()]) } else { "" },
        if o1.is_some() && !v1.skip { cat(&["|r.zz=", v1.s()]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_192() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(fmt = fmt_dv, rename = "oauth_type", option = true)]
        r#type: Option<DV>,
        #[oauth1(skip_if = skip_dv)]
        #[oauth1(rename = "oauth_ab")]
        #[oauth1(fmt = fmt_dv)]
        #[oauth1(option = true)]
        ab: Opt<DV>,
        #[oauth1(fmt = fmt_dv, rename = "oauth_mid")]
        mid: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { r#type: o0, ab: o1, mid: o2 };
    let want = cat(&[if o1.is_some() && !v1.skip { cat(&["|oauth_ab=", cat(&["F(", v1.s(), ")"])]) } else { "" },
        cat(&["|oauth_mid=", cat(&["F(", v2.s(), ")"])]),
        if o0.is_some() { cat(&["|oauth_type=", cat(&["F(", v0.s(), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_193() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_z")]
        #[oauth1(skip_if = DV::skip_by::<u8>)]
        #[oauth1(fmt = <DV>::fmt_by)]
        z: DV,
        #[oauth1(skip)]
        #[oauth1(rename = "r.zz")]
        zz: DV,
        #[oauth1(skip)]
        #[oauth1(rename = "r.b")]
        #[oauth1(fmt = <DV>::fmt_by)]
        b: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { z: o0, zz: o1, b: o2 };
    let want = cat(&[if !v0.skip { cat(&["|oauth_z=", cat(&["F(", v0.s(), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_194() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "MID")]
        #[oauth1(fmt = fmt_dv)]
        mid: DV,
        #[oauth1(skip_if = skip_opt, encoded, option = false, fmt = crate::derive_values::fmt_opt)]
        z: Option<DV>,
        #[oauth1(option = false)]
        #[oauth1(fmt = crate::derive_values::fmt_opt)]
        #[oauth1(skip_if = crate::derive_values::skip_opt)]
        r#type: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { mid: o0, z: o1, r#type: o2 };
    let want = cat(&[cat(&["|MID=", cat(&["F(", v0.s(), ")"])]),
        if !skip_opt(&o2) { cat(&["|type=", cat(&["F(", opt_s(&o2), ")"])]) } else { "" },
        if !skip_opt(&o1) { cat(&["|z~", cat(&["F(", opt_s(&o1), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_195() {
    #[derive(oauth::Request)]
    struct R {
        aa: DV,
        #[oauth1(fmt = fmt_dv, rename = "oauth_type", skip_if = DV::skip_by::<u8>)]
        r#type: DV,
        #[oauth1(option = true, rename = "oauth_oauth_w", skip_if = DV::skip_by::<u8>)]
        oauth_w: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { aa: o0, r#type: o1, oauth_w: o2 };
    let want = cat(&[cat(&["|aa=", v0.s()]),
        if o2.is_some() && !v2.skip { cat(&["|oauth_oauth_w=", v2.s()]) } else { "" },
        if !v1.skip { cat(&["|oauth_type=", cat(&["F(", v1.s(), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_196() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded, rename = "r.z")]
        z: DV,
        #[oauth1(rename = "MID")]
        #[oauth1(fmt = fmt_dv)]
        mid: DV,
        #[oauth1(fmt = <DV>::fmt_by, rename = "oauth_type")]
        r#type: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { z: o0, mid: o1, r#type: o2 };
    let want = cat(&[cat(&["|MID=", cat(&["F(", v1.s(), ")"])]),
        cat(&["|oauth_type=", cat(&["F(", v2.s(), ")"])]),
        cat(&["|r.z~", v0.s()])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_197() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "MID")]
        #[oauth1(skip)]
        #[oauth1(skip_if = DV::skip_by::<u8>)]
        #[oauth1(fmt = <DV>::fmt_by)]
        mid: DV,
        #[oauth1(fmt = <DV>::fmt_by)]
        #[oauth1(encoded)]
        #[oauth1(rename = "r.z")]
        z: DV,
        #[oauth1(rename = "oauth_oauth_w", fmt = fmt_dv, encoded)]
        oauth_w: Option<DV>,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { mid: o0, z: o1, oauth_w: o2 };
    let want = cat(&[if o2.is_some() { cat(&["|oauth_oauth_w~", cat(&["F(", v2.s(), ")"])]) } else { "" },
        cat(&["|r.z~", cat(&["F(", v1.s(), ")"])])]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_198() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(fmt = <DV>::fmt_by, option = false, skip_if = skip_dv, rename = "oauth_mid")]
        mid: DV,
        #[oauth1(fmt = fmt_dv, rename = "r.type", option = true)]
        r#type: Opt<DV>,
        #[oauth1(rename = "AA", option = true)]
        aa: Option<DV>,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { mid: o0, r#type: o1, aa: o2 };
    let want = cat(&[if o2.is_some() { cat(&["|AA=", v2.s()]) } else { "" },
        if !v0.skip { cat(&["|oauth_mid=", cat(&["F(", v0.s(), ")"])]) } else { "" },
        if o1.is_some() { cat(&["|r.type=", cat(&["F(", v1.s(), ")"])]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_199() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = true, rename = "oauth_type", encoded)]
        r#type: Opt<DV>,
        #[oauth1(option = false)]
        #[oauth1(fmt = fmt_opt)]
        #[oauth1(encoded)]
        #[oauth1(rename = "Y2")]
        y2: Option<DV>,
        #[oauth1(rename = "ZZ", option = true)]
        zz: Opt<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { r#type: o0, y2: o1, zz: o2 };
    let want = cat(&[cat(&["|Y2~", cat(&["F(", opt_s(&o1), ")"])]),
        if o2.is_some() { cat(&["|ZZ=", v2.s()]) } else { "" },
        if o0.is_some() { cat(&["|oauth_type~", v0.s()]) } else { "" }]);
    feeds("C31", &r, want);
}

pub fn e_c31_derived_200() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(option = false, fmt = fmt_opt, rename = "Y2")]
        y2: Option<DV>,
        #[oauth1(fmt = <DV>::fmt_by)]
        #[oauth1(rename = "oauth_z")]
        z: DV,
        #[oauth1(fmt = fmt_dv)]
        #[oauth1(option = false)]
        #[oauth1(skip_if = skip_dv)]
        #[oauth1(encoded)]
        b: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(true);
    let o2 = v2;
    let r = R { y2: o0, z: o1, b: o2 };
    let want = cat(&[cat(&["|Y2=", cat(&["F(", opt_s(&o0), ")"])]),
        if !v2.skip { cat(&["|b~", cat(&["F(", v2.s(), ")"])]) } else { "" },
        cat(&["|oauth_z=", cat(&["F(", v1.s(), ")"])])]);
    feeds("C31", &r, want);
}

pub fn e_c30_derived_201() {
    #[derive(oauth::Request)]
    struct R {
        A: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { A: o0 };
    let want = cat(&[cat(&["|A=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_202() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "Aa")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|Aa=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_203() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "OAUTH_TOKEN")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|OAUTH_TOKEN=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_204() {
    #[derive(oauth::Request)]
    struct R {
        Oauth_token: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { Oauth_token: o0 };
    let want = cat(&[cat(&["|Oauth_token=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_205() {
    #[derive(oauth::Request)]
    struct R {
        Z: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { Z: o0 };
    let want = cat(&[cat(&["|Z=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_206() {
    #[derive(oauth::Request)]
    struct R {
        __: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { __: o0 };
    let want = cat(&[cat(&["|__=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_207() {
    #[derive(oauth::Request)]
    struct R {
        _a: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { _a: o0 };
    let want = cat(&[cat(&["|_a=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_208() {
    #[derive(oauth::Request)]
    struct R {
        a: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { a: o0 };
    let want = cat(&[cat(&["|a=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_209() {
    #[derive(oauth::Request)]
    struct R {
        a1: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { a1: o0 };
    let want = cat(&[cat(&["|a1=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_210() {
    #[derive(oauth::Request)]
    struct R {
        aA: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { aA: o0 };
    let want = cat(&[cat(&["|aA=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_211() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "a_")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|a_=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_212() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "n")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|n=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_213() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "o")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|o=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_214() {
    #[derive(oauth::Request)]
    struct R {
        oaut: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oaut: o0 };
    let want = cat(&[cat(&["|oaut=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_215() {
    #[derive(oauth::Request)]
    struct R {
        oauth: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth: o0 };
    let want = cat(&[cat(&["|oauth=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_216() {
    #[derive(oauth::Request)]
    struct R {
        oauth1: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth1: o0 };
    let want = cat(&[cat(&["|oauth1=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_217() {
    #[derive(oauth::Request)]
    struct R {
        oauth_: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_: o0 };
    let want = cat(&[cat(&["|oauth_=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_218() {
    #[derive(oauth::Request)]
    struct R {
        oauth_Callback: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_Callback: o0 };
    let want = cat(&[cat(&["|oauth_Callback=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_219() {
    #[derive(oauth::Request)]
    struct R {
        oauth_Consumer_key: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_Consumer_key: o0 };
    let want = cat(&[cat(&["|oauth_Consumer_key=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_220() {
    #[derive(oauth::Request)]
    struct R {
        oauth_Nonce: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_Nonce: o0 };
    let want = cat(&[cat(&["|oauth_Nonce=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_221() {
    #[derive(oauth::Request)]
    struct R {
        oauth_Signature_method: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_Signature_method: o0 };
    let want = cat(&[cat(&["|oauth_Signature_method=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_222() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_Timestamp")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_Timestamp=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_223() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_Token")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_Token=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_224() {
    #[derive(oauth::Request)]
    struct R {
        oauth_Verifier: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_Verifier: o0 };
    let want = cat(&[cat(&["|oauth_Verifier=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_225() {
    #[derive(oauth::Request)]
    struct R {
        oauth_Version: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_Version: o0 };
    let want = cat(&[cat(&["|oauth_Version=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_226() {
    #[derive(oauth::Request)]
    struct R {
        oauth__: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth__: o0 };
    let want = cat(&[cat(&["|oauth__=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_227() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_a")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_a=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_228() {
    #[derive(oauth::Request)]
    struct R {
        oauth_ca: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_ca: o0 };
    let want = cat(&[cat(&["|oauth_ca=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_229() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_callbac")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_callbac=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_230() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_callbacj")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_callbacj=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_231() {
    #[derive(oauth::Request)]
    struct R {
        oauth_callback: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_callback: o0 };
    let want = cat(&[cat(&["|oauth_callback=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_232() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_callback0")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_callback0=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_233() {
    #[derive(oauth::Request)]
    struct R {
        oauth_callback_: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_callback_: o0 };
    let want = cat(&[cat(&["|oauth_callback_=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_234() {
    #[derive(oauth::Request)]
    struct R {
        oauth_callbacka: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_callbacka: o0 };
    let want = cat(&[cat(&["|oauth_callbacka=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_235() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_callbacl")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_callbacl=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_236() {
    #[derive(oauth::Request)]
    struct R {
        oauth_co: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_co: o0 };
    let want = cat(&[cat(&["|oauth_co=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_237() {
    #[derive(oauth::Request)]
    struct R {
        oauth_consumer_ke: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_consumer_ke: o0 };
    let want = cat(&[cat(&["|oauth_consumer_ke=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_238() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_consumer_kex")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_consumer_kex=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_239() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_consumer_key")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_consumer_key=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_240() {
    #[derive(oauth::Request)]
    struct R {
        oauth_consumer_key0: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_consumer_key0: o0 };
    let want = cat(&[cat(&["|oauth_consumer_key0=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_241() {
    #[derive(oauth::Request)]
    struct R {
        oauth_consumer_key_: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_consumer_key_: o0 };
    let want = cat(&[cat(&["|oauth_consumer_key_=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_242() {
    #[derive(oauth::Request)]
    struct R {
        oauth_consumer_keya: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_consumer_keya: o0 };
    let want = cat(&[cat(&["|oauth_consumer_keya=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_243() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_consumer_kez")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_consumer_kez=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_244() {
    #[derive(oauth::Request)]
    struct R {
        oauth_no: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_no: o0 };
    let want = cat(&[cat(&["|oauth_no=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_245() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_nonc")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_nonc=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_246() {
    #[derive(oauth::Request)]
    struct R {
        oauth_noncd: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_noncd: o0 };
    let want = cat(&[cat(&["|oauth_noncd=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_247() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_nonce")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_nonce=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_248() {
    #[derive(oauth::Request)]
    struct R {
        oauth_nonce0: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_nonce0: o0 };
    let want = cat(&[cat(&["|oauth_nonce0=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_249() {
    #[derive(oauth::Request)]
    struct R {
        oauth_nonce_: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_nonce_: o0 };
    let want = cat(&[cat(&["|oauth_nonce_=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_250() {
    #[derive(oauth::Request)]
    struct R {
        oauth_noncea: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_noncea: o0 };
    let want = cat(&[cat(&["|oauth_noncea=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_251() {
    #[derive(oauth::Request)]
    struct R {
        oauth_noncf: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_noncf: o0 };
    let want = cat(&[cat(&["|oauth_noncf=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_252() {
    #[derive(oauth::Request)]
    struct R {
        oauth_si: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_si: o0 };
    let want = cat(&[cat(&["|oauth_si=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_253() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_signature_metho")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_signature_metho=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_254() {
    #[derive(oauth::Request)]
    struct R {
        oauth_signature_methoc: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_signature_methoc: o0 };
    let want = cat(&[cat(&["|oauth_signature_methoc=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_255() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_signature_method")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_signature_method=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_256() {
    #[derive(oauth::Request)]
    struct R {
        oauth_signature_method0: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_signature_method0: o0 };
    let want = cat(&[cat(&["|oauth_signature_method0=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_257() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_signature_method_")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_signature_method_=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_258() {
    #[derive(oauth::Request)]
    struct R {
        oauth_signature_methoda: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_signature_methoda: o0 };
    let want = cat(&[cat(&["|oauth_signature_methoda=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_259() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_signature_methoe")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_signature_methoe=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_260() {
    #[derive(oauth::Request)]
    struct R {
        oauth_ti: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_ti: o0 };
    let want = cat(&[cat(&["|oauth_ti=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_261() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_timestam")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_timestam=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_262() {
    #[derive(oauth::Request)]
    struct R {
        oauth_timestamo: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_timestamo: o0 };
    let want = cat(&[cat(&["|oauth_timestamo=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_263() {
    #[derive(oauth::Request)]
    struct R {
        oauth_timestamp: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_timestamp: o0 };
    let want = cat(&[cat(&["|oauth_timestamp=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_264() {
    #[derive(oauth::Request)]
    struct R {
        oauth_timestamp0: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_timestamp0: o0 };
    let want = cat(&[cat(&["|oauth_timestamp0=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_265() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_timestamp_")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_timestamp_=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_266() {
    #[derive(oauth::Request)]
    struct R {
        oauth_timestampa: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_timestampa: o0 };
    let want = cat(&[cat(&["|oauth_timestampa=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_267() {
    #[derive(oauth::Request)]
    struct R {
        oauth_timestamq: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_timestamq: o0 };
    let want = cat(&[cat(&["|oauth_timestamq=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_268() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_to")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_to=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_269() {
    #[derive(oauth::Request)]
    struct R {
        oauth_toke: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_toke: o0 };
    let want = cat(&[cat(&["|oauth_toke=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_270() {
    #[derive(oauth::Request)]
    struct R {
        oauth_tokem: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_tokem: o0 };
    let want = cat(&[cat(&["|oauth_tokem=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_271() {
    #[derive(oauth::Request)]
    struct R {
        oauth_token: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_token: o0 };
    let want = cat(&[cat(&["|oauth_token=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_272() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_token0")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_token0=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_273() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_token_")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_token_=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_274() {
    #[derive(oauth::Request)]
    struct R {
        oauth_tokena: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_tokena: o0 };
    let want = cat(&[cat(&["|oauth_tokena=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_275() {
    #[derive(oauth::Request)]
    struct R {
        oauth_tokeo: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_tokeo: o0 };
    let want = cat(&[cat(&["|oauth_tokeo=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_276() {
    #[derive(oauth::Request)]
    struct R {
        oauth_ve: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_ve: o0 };
    let want = cat(&[cat(&["|oauth_ve=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_277() {
    #[derive(oauth::Request)]
    struct R {
        oauth_verifie: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_verifie: o0 };
    let want = cat(&[cat(&["|oauth_verifie=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_278() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_verifieq")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_verifieq=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_279() {
    #[derive(oauth::Request)]
    struct R {
        oauth_verifier: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_verifier: o0 };
    let want = cat(&[cat(&["|oauth_verifier=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_280() {
    #[derive(oauth::Request)]
    struct R {
        oauth_verifier0: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_verifier0: o0 };
    let want = cat(&[cat(&["|oauth_verifier0=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_281() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_verifier_")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_verifier_=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_282() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_verifiera")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_verifiera=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_283() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_verifies")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_verifies=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_284() {
    #[derive(oauth::Request)]
    struct R {
        oauth_versio: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_versio: o0 };
    let want = cat(&[cat(&["|oauth_versio=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_285() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_versiom")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_versiom=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_286() {
    #[derive(oauth::Request)]
    struct R {
        oauth_version: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_version: o0 };
    let want = cat(&[cat(&["|oauth_version=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_287() {
    #[derive(oauth::Request)]
    struct R {
        oauth_version0: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_version0: o0 };
    let want = cat(&[cat(&["|oauth_version0=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_288() {
    #[derive(oauth::Request)]
    struct R {
        oauth_version_: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_version_: o0 };
    let want = cat(&[cat(&["|oauth_version_=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_289() {
    #[derive(oauth::Request)]
    struct R {
        oauth_versiona: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_versiona: o0 };
    let want = cat(&[cat(&["|oauth_versiona=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_290() {
    #[derive(oauth::Request)]
    struct R {
        oauth_versioo: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauth_versioo: o0 };
    let want = cat(&[cat(&["|oauth_versioo=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_291() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_z")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_z=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_292() {
    #[derive(oauth::Request)]
    struct R {
        oauthz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauthz: o0 };
    let want = cat(&[cat(&["|oauthz=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_293() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauthzcallback")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauthzcallback=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_294() {
    #[derive(oauth::Request)]
    struct R {
        oauthzconsumerzkey: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauthzconsumerzkey: o0 };
    let want = cat(&[cat(&["|oauthzconsumerzkey=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_295() {
    #[derive(oauth::Request)]
    struct R {
        oauthznonce: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauthznonce: o0 };
    let want = cat(&[cat(&["|oauthznonce=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_296() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauthzsignaturezmethod")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauthzsignaturezmethod=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_297() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauthztimestamp")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauthztimestamp=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_298() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauthztoken")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauthztoken=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_299() {
    #[derive(oauth::Request)]
    struct R {
        oauthzverifier: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauthzverifier: o0 };
    let want = cat(&[cat(&["|oauthzverifier=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_300() {
    #[derive(oauth::Request)]
    struct R {
        oauthzversion: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { oauthzversion: o0 };
    let want = cat(&[cat(&["|oauthzversion=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_301() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauti")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauti=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_302() {
    #[derive(oauth::Request)]
    struct R {
        p: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { p: o0 };
    let want = cat(&[cat(&["|p=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_303() {
    #[derive(oauth::Request)]
    struct R {
        z: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { z: o0 };
    let want = cat(&[cat(&["|z=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_304() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { zz: o0 };
    let want = cat(&[cat(&["|zz=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_305() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "0")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|0=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_306() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "9a")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|9a=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_307() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "-")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|-=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_308() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = ".")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|.=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_309() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "~")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|~=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_310() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "a-b")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|a-b=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_311() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "a.b")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|a.b=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_312() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "a~")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|a~=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_313() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth-token")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth-token=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_314() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth.token")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth.token=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_315() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth~")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth~=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_316() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_token-")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_token-=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_317() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_token.x")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_token.x=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_318() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_token~")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_token~=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_319() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_version~")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_version~=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_320() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_version.0")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_version.0=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_321() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_callback-")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_callback-=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_322() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "~oauth")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|~oauth=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_323() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "type")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|type=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_324() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "self")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|self=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_325() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "Self")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|Self=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_326() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "crate")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|crate=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_327() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "-oauth_token")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|-oauth_token=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_328() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_329() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_token_secret")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_token_secret=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_330() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_body_hash")]
        x: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { x: o0 };
    let want = cat(&[cat(&["|oauth_body_hash=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_331() {
    #[derive(oauth::Request)]
    struct R {
        oauth_noncea: DV,
        #[oauth1(rename = "a~")]
        f1: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let r = R { oauth_noncea: o0, f1: o1 };
    let want = cat(&[if o1.is_some() { cat(&["|a~=", v1.s()]) } else { "" },
        cat(&["|oauth_noncea=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_332() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        oauth_verifie: Option<DV>,
        #[oauth1(encoded)]
        oauth_si: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let r = R { oauth_verifie: o0, oauth_si: o1 };
    let want = cat(&[cat(&["|oauth_si~", v1.s()]),
        if o0.is_some() { cat(&["|oauth_verifie~", v0.s()]) } else { "" }]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_333() {
    #[derive(oauth::Request)]
    struct R {
        oauthzconsumerzkey: Option<DV>,
        oauth_timestam: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let r = R { oauthzconsumerzkey: o0, oauth_timestam: o1 };
    let want = cat(&[cat(&["|oauth_timestam=", v1.s()]),
        if o0.is_some() { cat(&["|oauthzconsumerzkey=", v0.s()]) } else { "" }]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_334() {
    #[derive(oauth::Request)]
    struct R {
        oauth_Nonce: Option<DV>,
        #[oauth1(skip_if = skip_dv, encoded)]
        oauth_timestamp_: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(true);
    let o1 = v1;
    let r = R { oauth_Nonce: o0, oauth_timestamp_: o1 };
    let want = cat(&[if o0.is_some() { cat(&["|oauth_Nonce=", v0.s()]) } else { "" },
        if !v1.skip { cat(&["|oauth_timestamp_~", v1.s()]) } else { "" }]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_335() {
    #[derive(oauth::Request)]
    struct R {
        oauth_callbacj: DV,
        #[oauth1(encoded)]
        oauth_consumer_key_: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let r = R { oauth_callbacj: o0, oauth_consumer_key_: o1 };
    let want = cat(&[cat(&["|oauth_callbacj=", v0.s()]),
        cat(&["|oauth_consumer_key_~", v1.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_336() {
    #[derive(oauth::Request)]
    struct R {
        oauth_version_: DV,
        #[oauth1(encoded, rename = "oauth_version~")]
        f1: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let r = R { oauth_version_: o0, f1: o1 };
    let want = cat(&[cat(&["|oauth_version_=", v0.s()]),
        if o1.is_some() { cat(&["|oauth_version~~", v1.s()]) } else { "" }]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_337() {
    #[derive(oauth::Request)]
    struct R {
        oauth_callbacka: DV,
        #[oauth1(rename = "oauth_version.0")]
        f1: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let r = R { oauth_callbacka: o0, f1: o1 };
    let want = cat(&[cat(&["|oauth_callbacka=", v0.s()]),
        cat(&["|oauth_version.0=", v1.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_338() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_version", skip_if = skip_dv)]
        f0: DV,
        #[oauth1(rename = "oauth_callbacl", skip_if = skip_dv)]
        f1: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = v1;
    let r = R { f0: o0, f1: o1 };
    let want = cat(&[if !v1.skip { cat(&["|oauth_callbacl=", v1.s()]) } else { "" },
        if !v0.skip { cat(&["|oauth_version=", v0.s()]) } else { "" }]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_339() {
    #[derive(oauth::Request)]
    struct R {
        oauth_Consumer_key: DV,
        oauthznonce: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let r = R { oauth_Consumer_key: o0, oauthznonce: o1 };
    let want = cat(&[cat(&["|oauth_Consumer_key=", v0.s()]),
        cat(&["|oauthznonce=", v1.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_340() {
    #[derive(oauth::Request)]
    struct R {
        oauth_consumer_kez: Option<DV>,
        #[oauth1(skip_if = skip_dv)]
        oauth_Version: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let r = R { oauth_consumer_kez: o0, oauth_Version: o1 };
    let want = cat(&[if o1.is_some() && !v1.skip { cat(&["|oauth_Version=", v1.s()]) } else { "" },
        if o0.is_some() { cat(&["|oauth_consumer_kez=", v0.s()]) } else { "" }]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_341() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "a~", encoded)]
        f0: Option<DV>,
        #[oauth1(encoded, rename = "~")]
        f1: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let r = R { f0: o0, f1: o1 };
    let want = cat(&[if o0.is_some() { cat(&["|a~~", v0.s()]) } else { "" },
        cat(&["|~~", v1.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_342() {
    #[derive(oauth::Request)]
    struct R {
        oauth_versiom: DV,
        #[oauth1(rename = "oauth_timestam")]
        f1: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let r = R { oauth_versiom: o0, f1: o1 };
    let want = cat(&[cat(&["|oauth_timestam=", v1.s()]),
        cat(&["|oauth_versiom=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_343() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_nonc")]
        f0: DV,
        #[oauth1(encoded)]
        _a: Option<DV>,
        #[oauth1(rename = "~")]
        f2: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { f0: o0, _a: o1, f2: o2 };
    let want = cat(&[if o1.is_some() { cat(&["|_a~", v1.s()]) } else { "" },
        cat(&["|oauth_nonc=", v0.s()]),
        cat(&["|~=", v2.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_344() {
    #[derive(oauth::Request)]
    struct R {
        oauth_si: Option<DV>,
        #[oauth1(encoded)]
        oauth_signature_methoe: DV,
        #[oauth1(rename = "self", encoded)]
        f2: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { oauth_si: o0, oauth_signature_methoe: o1, f2: o2 };
    let want = cat(&[if o0.is_some() { cat(&["|oauth_si=", v0.s()]) } else { "" },
        cat(&["|oauth_signature_methoe~", v1.s()]),
        if o2.is_some() { cat(&["|self~", v2.s()]) } else { "" }]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_345() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = skip_dv)]
        A: DV,
        #[oauth1(encoded)]
        oauth_verifie: DV,
        oauth_timestam: Option<DV>,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { A: o0, oauth_verifie: o1, oauth_timestam: o2 };
    let want = cat(&[if !v0.skip { cat(&["|A=", v0.s()]) } else { "" },
        if o2.is_some() { cat(&["|oauth_timestam=", v2.s()]) } else { "" },
        cat(&["|oauth_verifie~", v1.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_346() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = skip_dv)]
        oauthznonce: DV,
        #[oauth1(rename = "crate")]
        f1: DV,
        #[oauth1(encoded, rename = "oauth_body_hash")]
        f2: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { oauthznonce: o0, f1: o1, f2: o2 };
    let want = cat(&[cat(&["|crate=", v1.s()]),
        cat(&["|oauth_body_hash~", v2.s()]),
        if !v0.skip { cat(&["|oauthznonce=", v0.s()]) } else { "" }]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_347() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth-token")]
        f0: DV,
        #[oauth1(rename = "oauth_ti")]
        f1: DV,
        #[oauth1(encoded, rename = "oauth_callbacl", skip)]
        f2: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { f0: o0, f1: o1, f2: o2 };
    let want = cat(&[cat(&["|oauth-token=", v0.s()]),
        cat(&["|oauth_ti=", v1.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_348() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_callback")]
        f0: DV,
        #[oauth1(rename = "oauth_body_hash")]
        f1: DV,
        oauth_consumer_key_: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { f0: o0, f1: o1, oauth_consumer_key_: o2 };
    let want = cat(&[cat(&["|oauth_body_hash=", v1.s()]),
        cat(&["|oauth_callback=", v0.s()]),
        cat(&["|oauth_consumer_key_=", v2.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_349() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_version.0")]
        f0: DV,
        #[oauth1(rename = "oauth_token.x")]
        f1: DV,
        oauth_callback_: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { f0: o0, f1: o1, oauth_callback_: o2 };
    let want = cat(&[if o2.is_some() { cat(&["|oauth_callback_=", v2.s()]) } else { "" },
        cat(&["|oauth_token.x=", v1.s()]),
        cat(&["|oauth_version.0=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_350() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded, rename = "oauth_version~")]
        f0: Option<DV>,
        #[oauth1(rename = "Aa", encoded)]
        f1: DV,
        #[oauth1(skip, rename = "oauth_callbac")]
        f2: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { f0: o0, f1: o1, f2: o2 };
    let want = cat(&[cat(&["|Aa~", v1.s()]),
        if o0.is_some() { cat(&["|oauth_version~~", v0.s()]) } else { "" }]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_351() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_Timestamp", skip_if = skip_dv)]
        f0: Option<DV>,
        #[oauth1(rename = "oauth_body_hash")]
        f1: Option<DV>,
        #[oauth1(rename = "oauth_co")]
        f2: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { f0: o0, f1: o1, f2: o2 };
    let want = cat(&[if o0.is_some() && !v0.skip { cat(&["|oauth_Timestamp=", v0.s()]) } else { "" },
        if o1.is_some() { cat(&["|oauth_body_hash=", v1.s()]) } else { "" },
        cat(&["|oauth_co=", v2.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_352() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded, rename = "type")]
        f0: Option<DV>,
        #[oauth1(skip)]
        oauth1: DV,
        #[oauth1(encoded)]
        oauth_z: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { f0: o0, oauth1: o1, oauth_z: o2 };
    let want = cat(&[cat(&["|oauth_z~", v2.s()]),
        if o0.is_some() { cat(&["|type~", v0.s()]) } else { "" }]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_353() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "self")]
        f0: DV,
        #[oauth1(encoded)]
        oauthz: DV,
        #[oauth1(rename = "9a")]
        f2: Option<DV>,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let r = R { f0: o0, oauthz: o1, f2: o2 };
    let want = cat(&[if o2.is_some() { cat(&["|9a=", v2.s()]) } else { "" },
        cat(&["|oauthz~", v1.s()]),
        cat(&["|self=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_354() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = skip_dv, rename = "-oauth_token")]
        f0: DV,
        oauthztoken: Option<DV>,
        #[oauth1(rename = "oauth_ti", encoded)]
        f2: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let r = R { f0: o0, oauthztoken: o1, f2: o2 };
    let want = cat(&[if !v0.skip { cat(&["|-oauth_token=", v0.s()]) } else { "" },
        cat(&["|oauth_ti~", v2.s()]),
        if o1.is_some() { cat(&["|oauthztoken=", v1.s()]) } else { "" }]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_355() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_nonce_")]
        f0: DV,
        #[oauth1(rename = "a-b")]
        f1: DV,
        #[oauth1(rename = "oauth_callbacl")]
        f2: DV,
        #[oauth1(encoded)]
        oauthzcallback: DV,
        #[oauth1(encoded)]
        Z: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let r = R { f0: o0, f1: o1, f2: o2, oauthzcallback: o3, Z: o4 };
    let want = cat(&[cat(&["|Z~", v4.s()]),
        cat(&["|a-b=", v1.s()]),
        cat(&["|oauth_callbacl=", v2.s()]),
        cat(&["|oauth_nonce_=", v0.s()]),
        cat(&["|oauthzcallback~", v3.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_356() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip)]
        oauth_ca: DV,
        oauthznonce: DV,
        Oauth_token: DV,
        oauthz: DV,
        #[oauth1(rename = "oauth_to")]
        f4: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let r = R { oauth_ca: o0, oauthznonce: o1, Oauth_token: o2, oauthz: o3, f4: o4 };
    let want = cat(&[cat(&["|Oauth_token=", v2.s()]),
        cat(&["|oauth_to=", v4.s()]),
        cat(&["|oauthz=", v3.s()]),
        cat(&["|oauthznonce=", v1.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_357() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip, encoded, rename = "oauth_versioo")]
        f0: DV,
        #[oauth1(skip_if = skip_dv)]
        oauth_si: DV,
        oauthzconsumerzkey: DV,
        #[oauth1(encoded)]
        oauth_Version: DV,
        oauth_Token: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let r = R { f0: o0, oauth_si: o1, oauthzconsumerzkey: o2, oauth_Version: o3, oauth_Token: o4 };
    let want = cat(&[cat(&["|oauth_Token=", v4.s()]),
        cat(&["|oauth_Version~", v3.s()]),
        if !v1.skip { cat(&["|oauth_si=", v1.s()]) } else { "" },
        cat(&["|oauthzconsumerzkey=", v2.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_358() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_token~")]
        f0: DV,
        #[oauth1(encoded, skip)]
        oauth_noncd: DV,
        #[oauth1(encoded, rename = "oauth_callbacka")]
        f2: DV,
        #[oauth1(encoded, rename = "oauth_Consumer_key")]
        f3: DV,
        oauth_signature_method0: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let r = R { f0: o0, oauth_noncd: o1, f2: o2, f3: o3, oauth_signature_method0: o4 };
    let want = cat(&[cat(&["|oauth_Consumer_key~", v3.s()]),
        cat(&["|oauth_callbacka~", v2.s()]),
        cat(&["|oauth_signature_method0=", v4.s()]),
        cat(&["|oauth_token~=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_359() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth~", skip_if = skip_dv)]
        f0: DV,
        #[oauth1(rename = "oauth_co")]
        f1: Option<DV>,
        #[oauth1(skip)]
        oauth_noncea: DV,
        #[oauth1(rename = "oauth_Signature_method")]
        f3: DV,
        Z: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let r = R { f0: o0, f1: o1, oauth_noncea: o2, f3: o3, Z: o4 };
    let want = cat(&[cat(&["|Z=", v4.s()]),
        cat(&["|oauth_Signature_method=", v3.s()]),
        if o1.is_some() { cat(&["|oauth_co=", v1.s()]) } else { "" },
        if !v0.skip { cat(&["|oauth~=", v0.s()]) } else { "" }]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_360() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_Consumer_key")]
        f0: DV,
        oauth_nonce_: DV,
        a: Option<DV>,
        oauth_version0: DV,
        #[oauth1(rename = "oauth_ca")]
        f4: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let r = R { f0: o0, oauth_nonce_: o1, a: o2, oauth_version0: o3, f4: o4 };
    let want = cat(&[if o2.is_some() { cat(&["|a=", v2.s()]) } else { "" },
        cat(&["|oauth_Consumer_key=", v0.s()]),
        cat(&["|oauth_ca=", v4.s()]),
        cat(&["|oauth_nonce_=", v1.s()]),
        cat(&["|oauth_version0=", v3.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_361() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "crate")]
        f0: DV,
        #[oauth1(rename = "type")]
        f1: Option<DV>,
        #[oauth1(rename = "oauth_signature_methoda")]
        f2: DV,
        oauthztimestamp: DV,
        #[oauth1(encoded)]
        oauth_verifier0: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let r = R { f0: o0, f1: o1, f2: o2, oauthztimestamp: o3, oauth_verifier0: o4 };
    let want = cat(&[cat(&["|crate=", v0.s()]),
        cat(&["|oauth_signature_methoda=", v2.s()]),
        cat(&["|oauth_verifier0~", v4.s()]),
        cat(&["|oauthztimestamp=", v3.s()]),
        if o1.is_some() { cat(&["|type=", v1.s()]) } else { "" }]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_362() {
    #[derive(oauth::Request)]
    struct R {
        oauth_version_: DV,
        oauth_versioo: DV,
        a: DV,
        #[oauth1(rename = "zz")]
        f3: DV,
        #[oauth1(skip)]
        oauth_verifiera: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let r = R { oauth_version_: o0, oauth_versioo: o1, a: o2, f3: o3, oauth_verifiera: o4 };
    let want = cat(&[cat(&["|a=", v2.s()]),
        cat(&["|oauth_version_=", v0.s()]),
        cat(&["|oauth_versioo=", v1.s()]),
        cat(&["|zz=", v3.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_363() {
    #[derive(oauth::Request)]
    struct R {
        oauth_consumer_keya: DV,
        #[oauth1(skip_if = skip_dv)]
        o: Option<DV>,
        #[oauth1(encoded, rename = "oauthzconsumerzkey")]
        f2: DV,
        #[oauth1(rename = "oauth_callback-", encoded)]
        f3: DV,
        #[oauth1(skip)]
        OAUTH_TOKEN: DV,
        oauth__: DV,
        #[oauth1(rename = "oauth_ca")]
        f6: DV,
        oauth_Timestamp: DV,
        #[oauth1(skip, rename = "oauth_noncf")]
        f8: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(true);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let v5 = DV::fresh(false);
    let o5 = v5;
    let v6 = DV::fresh(false);
    let o6 = v6;
    let v7 = DV::fresh(false);
    let o7 = v7;
    let v8 = DV::fresh(false);
    let o8 = v8;
    let r = R { oauth_consumer_keya: o0, o: o1, f2: o2, f3: o3, OAUTH_TOKEN: o4, oauth__: o5, f6: o6, oauth_Timestamp: o7, f8: o8 };
    let want = cat(&[if o1.is_some() && !v1.skip { cat(&["|o=", v1.s()]) } else { "" },
        cat(&["|oauth_Timestamp=", v7.s()]),
        cat(&["|oauth__=", v5.s()]),
        cat(&["|oauth_ca=", v6.s()]),
        cat(&["|oauth_callback-~", v3.s()]),
        cat(&["|oauth_consumer_keya=", v0.s()]),
        cat(&["|oauthzconsumerzkey~", v2.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_364() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip)]
        p: DV,
        #[oauth1(encoded)]
        oauth_consumer_kez: DV,
        #[oauth1(rename = "oauth_consumer_key0", encoded)]
        f2: Option<DV>,
        #[oauth1(rename = "Aa")]
        f3: DV,
        #[oauth1(rename = "oauth_signature_methoda")]
        f4: DV,
        #[oauth1(rename = "oauth_timestam", encoded)]
        f5: DV,
        #[oauth1(encoded, rename = "oauth_callbac")]
        f6: DV,
        #[oauth1(encoded, rename = "oauth.token")]
        f7: DV,
        #[oauth1(rename = "oauth_Nonce")]
        f8: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let v5 = DV::fresh(false);
    let o5 = v5;
    let v6 = DV::fresh(false);
    let o6 = v6;
    let v7 = DV::fresh(false);
    let o7 = v7;
    let v8 = DV::fresh(false);
    let o8 = v8;
    let r = R { p: o0, oauth_consumer_kez: o1, f2: o2, f3: o3, f4: o4, f5: o5, f6: o6, f7: o7, f8: o8 };
    let want = cat(&[cat(&["|Aa=", v3.s()]),
        cat(&["|oauth.token~", v7.s()]),
        cat(&["|oauth_Nonce=", v8.s()]),
        cat(&["|oauth_callbac~", v6.s()]),
        if o2.is_some() { cat(&["|oauth_consumer_key0~", v2.s()]) } else { "" },
        cat(&["|oauth_consumer_kez~", v1.s()]),
        cat(&["|oauth_signature_methoda=", v4.s()]),
        cat(&["|oauth_timestam~", v5.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_365() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        _a: DV,
        #[oauth1(rename = "oauth_noncf", encoded)]
        f1: Option<DV>,
        o: Option<DV>,
        __: DV,
        #[oauth1(encoded)]
        oauth_consumer_key0: DV,
        #[oauth1(encoded)]
        oauth_Callback: DV,
        #[oauth1(rename = "oauthzsignaturezmethod")]
        f6: DV,
        n: DV,
        #[oauth1(rename = "oauth~")]
        f8: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let v5 = DV::fresh(false);
    let o5 = v5;
    let v6 = DV::fresh(false);
    let o6 = v6;
    let v7 = DV::fresh(false);
    let o7 = v7;
    let v8 = DV::fresh(false);
    let o8 = v8;
    let r = R { _a: o0, f1: o1, o: o2, __: o3, oauth_consumer_key0: o4, oauth_Callback: o5, f6: o6, n: o7, f8: o8 };
    let want = cat(&[cat(&["|__=", v3.s()]),
        cat(&["|_a~", v0.s()]),
        cat(&["|n=", v7.s()]),
        if o2.is_some() { cat(&["|o=", v2.s()]) } else { "" },
        cat(&["|oauth_Callback~", v5.s()]),
        cat(&["|oauth_consumer_key0~", v4.s()]),
        if o1.is_some() { cat(&["|oauth_noncf~", v1.s()]) } else { "" },
        cat(&["|oauthzsignaturezmethod=", v6.s()]),
        cat(&["|oauth~=", v8.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_366() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = ".", skip_if = skip_dv)]
        f0: Option<DV>,
        #[oauth1(encoded)]
        oauth_nonc: Option<DV>,
        #[oauth1(rename = "self")]
        f2: DV,
        #[oauth1(rename = "oauth_verifier0")]
        f3: DV,
        oauth_consumer_keya: DV,
        #[oauth1(rename = "oauth_verifiera", skip)]
        f5: DV,
        #[oauth1(rename = "oauth_tokem")]
        f6: DV,
        #[oauth1(rename = "oauth_callback0")]
        f7: DV,
        #[oauth1(rename = "oauth_noncd", encoded)]
        f8: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let v5 = DV::fresh(false);
    let o5 = v5;
    let v6 = DV::fresh(false);
    let o6 = v6;
    let v7 = DV::fresh(false);
    let o7 = v7;
    let v8 = DV::fresh(false);
    let o8 = v8;
    let r = R { f0: o0, oauth_nonc: o1, f2: o2, f3: o3, oauth_consumer_keya: o4, f5: o5, f6: o6, f7: o7, f8: o8 };
    let want = cat(&[if o0.is_some() && !v0.skip { cat(&["|.=", v0.s()]) } else { "" },
        cat(&["|oauth_callback0=", v7.s()]),
        cat(&["|oauth_consumer_keya=", v4.s()]),
        if o1.is_some() { cat(&["|oauth_nonc~", v1.s()]) } else { "" },
        cat(&["|oauth_noncd~", v8.s()]),
        cat(&["|oauth_tokem=", v6.s()]),
        cat(&["|oauth_verifier0=", v3.s()]),
        cat(&["|self=", v2.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_367() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded)]
        __: DV,
        #[oauth1(skip)]
        oauth_versio: Option<DV>,
        oauth_timestampa: DV,
        #[oauth1(encoded, rename = "oauth_signature_method")]
        f3: DV,
        #[oauth1(encoded)]
        oauth_callbacj: DV,
        #[oauth1(rename = "oauth_callback0")]
        f5: DV,
        #[oauth1(rename = "oauth_tokena")]
        f6: DV,
        oauth_callbacl: DV,
        #[oauth1(rename = "oauth~")]
        f8: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = if nd() { Some(v1) } else { None };
    let v2 = DV::fresh(false);
    let o2 = v2;
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let v5 = DV::fresh(false);
    let o5 = v5;
    let v6 = DV::fresh(false);
    let o6 = v6;
    let v7 = DV::fresh(false);
    let o7 = v7;
    let v8 = DV::fresh(false);
    let o8 = v8;
    let r = R { __: o0, oauth_versio: o1, oauth_timestampa: o2, f3: o3, oauth_callbacj: o4, f5: o5, f6: o6, oauth_callbacl: o7, f8: o8 };
    let want = cat(&[cat(&["|__~", v0.s()]),
        cat(&["|oauth_callbacj~", v4.s()]),
        cat(&["|oauth_callback0=", v5.s()]),
        cat(&["|oauth_callbacl=", v7.s()]),
        cat(&["|oauth_signature_method~", v3.s()]),
        cat(&["|oauth_timestampa=", v2.s()]),
        cat(&["|oauth_tokena=", v6.s()]),
        cat(&["|oauth~=", v8.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_368() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "a_")]
        f0: DV,
        #[oauth1(rename = "a~")]
        f1: DV,
        #[oauth1(rename = "crate")]
        f2: Option<DV>,
        oauthzconsumerzkey: DV,
        #[oauth1(rename = "oauth_token_secret")]
        f4: DV,
        #[oauth1(rename = "oauth_versio")]
        f5: DV,
        #[oauth1(rename = "aA")]
        f6: DV,
        oauth_consumer_key: DV,
        #[oauth1(rename = "oauth_co")]
        f8: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let v5 = DV::fresh(false);
    let o5 = v5;
    let v6 = DV::fresh(false);
    let o6 = v6;
    let v7 = DV::fresh(false);
    let o7 = v7;
    let v8 = DV::fresh(false);
    let o8 = v8;
    let r = R { f0: o0, f1: o1, f2: o2, oauthzconsumerzkey: o3, f4: o4, f5: o5, f6: o6, oauth_consumer_key: o7, f8: o8 };
    let want = cat(&[cat(&["|aA=", v6.s()]),
        cat(&["|a_=", v0.s()]),
        cat(&["|a~=", v1.s()]),
        if o2.is_some() { cat(&["|crate=", v2.s()]) } else { "" },
        cat(&["|oauth_co=", v8.s()]),
        cat(&["|oauth_consumer_key=", v7.s()]),
        cat(&["|oauth_token_secret=", v4.s()]),
        cat(&["|oauth_versio=", v5.s()]),
        cat(&["|oauthzconsumerzkey=", v3.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_369() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(encoded, rename = "oauth_token")]
        f0: DV,
        oauth_timestamp0: DV,
        oauth_versiom: Option<DV>,
        #[oauth1(rename = "oauth.token")]
        f3: DV,
        #[oauth1(rename = "Z")]
        f4: DV,
        #[oauth1(rename = "oauth_Verifier")]
        f5: DV,
        #[oauth1(rename = "Self")]
        f6: DV,
        #[oauth1(rename = ".")]
        f7: DV,
        #[oauth1(rename = "oauth_timestamp")]
        f8: DV,
        #[oauth1(skip)]
        oauth_verifier: DV,
        #[oauth1(encoded)]
        oauti: DV,
        oauth_timestampa: DV,
        oauth_verifieq: DV,
        #[oauth1(skip)]
        oauth_: DV,
        #[oauth1(encoded)]
        oauth1: DV,
        #[oauth1(encoded)]
        z: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = if nd() { Some(v2) } else { None };
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let v5 = DV::fresh(false);
    let o5 = v5;
    let v6 = DV::fresh(false);
    let o6 = v6;
    let v7 = DV::fresh(false);
    let o7 = v7;
    let v8 = DV::fresh(false);
    let o8 = v8;
    let v9 = DV::fresh(false);
    let o9 = v9;
    let v10 = DV::fresh(false);
    let o10 = v10;
    let v11 = DV::fresh(false);
    let o11 = v11;
    let v12 = DV::fresh(false);
    let o12 = v12;
    let v13 = DV::fresh(false);
    let o13 = v13;
    let v14 = DV::fresh(false);
    let o14 = v14;
    let v15 = DV::fresh(false);
    let o15 = v15;
    let r = R { f0: o0, oauth_timestamp0: o1, oauth_versiom: o2, f3: o3, f4: o4, f5: o5, f6: o6, f7: o7, f8: o8, oauth_verifier: o9, oauti: o10, oauth_timestampa: o11, oauth_verifieq: o12, oauth_: o13, oauth1: o14, z: o15 };
    let want = cat(&[cat(&["|.=", v7.s()]),
        cat(&["|Self=", v6.s()]),
        cat(&["|Z=", v4.s()]),
        cat(&["|oauth.token=", v3.s()]),
        cat(&["|oauth1~", v14.s()]),
        cat(&["|oauth_Verifier=", v5.s()]),
        cat(&["|oauth_timestamp=", v8.s()]),
        cat(&["|oauth_timestamp0=", v1.s()]),
        cat(&["|oauth_timestampa=", v11.s()]),
        cat(&["|oauth_token~", v0.s()]),
        cat(&["|oauth_verifieq=", v12.s()]),
        if o2.is_some() { cat(&["|oauth_versiom=", v2.s()]) } else { "" },
        cat(&["|oauti~", v10.s()]),
        cat(&["|z~", v15.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_370() {
    #[derive(oauth::Request)]
    struct R {
        n: Option<DV>,
        #[oauth1(encoded)]
        oauti: DV,
        oauth_no: DV,
        #[oauth1(rename = "-")]
        f3: DV,
        oauth_Nonce: DV,
        #[oauth1(rename = "oauth_version_")]
        f5: DV,
        #[oauth1(rename = "a-b")]
        f6: DV,
        #[oauth1(encoded)]
        oauth_callback0: DV,
        #[oauth1(encoded, rename = "oauth_si")]
        f8: DV,
        a1: DV,
        __: DV,
        oauth: DV,
        oauth_nonce_: DV,
        oauth_timestam: DV,
        oauth_ti: DV,
        #[oauth1(rename = "oauth_token", encoded)]
        f15: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = if nd() { Some(v0) } else { None };
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let v5 = DV::fresh(false);
    let o5 = v5;
    let v6 = DV::fresh(false);
    let o6 = v6;
    let v7 = DV::fresh(false);
    let o7 = v7;
    let v8 = DV::fresh(false);
    let o8 = v8;
    let v9 = DV::fresh(false);
    let o9 = v9;
    let v10 = DV::fresh(false);
    let o10 = v10;
    let v11 = DV::fresh(false);
    let o11 = v11;
    let v12 = DV::fresh(false);
    let o12 = v12;
    let v13 = DV::fresh(false);
    let o13 = v13;
    let v14 = DV::fresh(false);
    let o14 = v14;
    let v15 = DV::fresh(false);
    let o15 = v15;
    let r = R { n: o0, oauti: o1, oauth_no: o2, f3: o3, oauth_Nonce: o4, f5: o5, f6: o6, oauth_callback0: o7, f8: o8, a1: o9, __: o10, oauth: o11, oauth_nonce_: o12, oauth_timestam: o13, oauth_ti: o14, f15: o15 };
    let want = cat(&[cat(&["|-=", v3.s()]),
        cat(&["|__=", v10.s()]),
        cat(&["|a-b=", v6.s()]),
        cat(&["|a1=", v9.s()]),
        if o0.is_some() { cat(&["|n=", v0.s()]) } else { "" },
        cat(&["|oauth=", v11.s()]),
        cat(&["|oauth_Nonce=", v4.s()]),
        cat(&["|oauth_callback0~", v7.s()]),
        cat(&["|oauth_no=", v2.s()]),
        cat(&["|oauth_nonce_=", v12.s()]),
        cat(&["|oauth_si~", v8.s()]),
        cat(&["|oauth_ti=", v14.s()]),
        cat(&["|oauth_timestam=", v13.s()]),
        cat(&["|oauth_token~", v15.s()]),
        cat(&["|oauth_version_=", v5.s()]),
        cat(&["|oauti~", v1.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_371() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip_if = skip_dv)]
        oauth_Timestamp: DV,
        #[oauth1(skip, rename = "oauth_token-")]
        f1: DV,
        aA: DV,
        oauth_timestampa: DV,
        #[oauth1(rename = "a.b")]
        f4: DV,
        #[oauth1(rename = "oauth_toke")]
        f5: DV,
        #[oauth1(encoded, rename = "oauth_noncea")]
        f6: DV,
        #[oauth1(encoded)]
        oauth_verifie: DV,
        #[oauth1(skip)]
        oauth_verifieq: DV,
        oauth_versioo: DV,
        #[oauth1(rename = "oauth_consumer_key_")]
        f10: DV,
        #[oauth1(rename = "o")]
        f11: DV,
        #[oauth1(encoded, rename = "oauth_callbac")]
        f12: DV,
        oauthzsignaturezmethod: DV,
        oauth_versiom: DV,
        #[oauth1(rename = "oauth_signature_methoc")]
        f15: DV,
    }
    let v0 = DV::fresh(true);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let v5 = DV::fresh(false);
    let o5 = v5;
    let v6 = DV::fresh(false);
    let o6 = v6;
    let v7 = DV::fresh(false);
    let o7 = v7;
    let v8 = DV::fresh(false);
    let o8 = v8;
    let v9 = DV::fresh(false);
    let o9 = v9;
    let v10 = DV::fresh(false);
    let o10 = v10;
    let v11 = DV::fresh(false);
    let o11 = v11;
    let v12 = DV::fresh(false);
    let o12 = v12;
    let v13 = DV::fresh(false);
    let o13 = v13;
    let v14 = DV::fresh(false);
    let o14 = v14;
    let v15 = DV::fresh(false);
    let o15 = v15;
    let r = R { oauth_Timestamp: o0, f1: o1, aA: o2, oauth_timestampa: o3, f4: o4, f5: o5, f6: o6, oauth_verifie: o7, oauth_verifieq: o8, oauth_versioo: o9, f10: o10, f11: o11, f12: o12, oauthzsignaturezmethod: o13, oauth_versiom: o14, f15: o15 };
    let want = cat(&[cat(&["|a.b=", v4.s()]),
        cat(&["|aA=", v2.s()]),
        cat(&["|o=", v11.s()]),
        if !v0.skip { cat(&["|oauth_Timestamp=", v0.s()]) } else { "" },
        cat(&["|oauth_callbac~", v12.s()]),
        cat(&["|oauth_consumer_key_=", v10.s()]),
        cat(&["|oauth_noncea~", v6.s()]),
        cat(&["|oauth_signature_methoc=", v15.s()]),
        cat(&["|oauth_timestampa=", v3.s()]),
        cat(&["|oauth_toke=", v5.s()]),
        cat(&["|oauth_verifie~", v7.s()]),
        cat(&["|oauth_versiom=", v14.s()]),
        cat(&["|oauth_versioo=", v9.s()]),
        cat(&["|oauthzsignaturezmethod=", v13.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_372() {
    #[derive(oauth::Request)]
    struct R {
        oauth_versiom: DV,
        #[oauth1(encoded, rename = "oauth_signature_methoda")]
        f1: DV,
        #[oauth1(rename = "9a", encoded)]
        f2: DV,
        oauth_Token: DV,
        oauth_version_: DV,
        #[oauth1(rename = "oauth_timestamq")]
        f5: DV,
        #[oauth1(encoded)]
        oauth_Callback: DV,
        #[oauth1(rename = "oauth.token", encoded)]
        f7: DV,
        #[oauth1(encoded)]
        oauth_signature_methoe: DV,
        #[oauth1(rename = "a1")]
        f9: DV,
        oauth_nonc: DV,
        #[oauth1(rename = "self")]
        f11: DV,
        #[oauth1(skip, rename = "oauth_toke")]
        f12: DV,
        oauth_callback: DV,
        oauth_versioo: DV,
        #[oauth1(skip)]
        oauth_verifier0: DV,
        #[oauth1(rename = "oauth_body_hash")]
        f16: DV,
        oauth_callbacl: DV,
        #[oauth1(skip)]
        oauthzverifier: DV,
        #[oauth1(rename = "~")]
        f19: DV,
        oauth_timestamo: DV,
        #[oauth1(encoded)]
        oauth_Signature_method: DV,
        #[oauth1(rename = "oauth_callback-")]
        f22: DV,
        oauth_signature_metho: DV,
        #[oauth1(rename = "a")]
        f24: DV,
        #[oauth1(rename = "oauth_callbacj")]
        f25: DV,
        n: DV,
        #[oauth1(rename = "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx")]
        f27: DV,
        oauth_tokem: DV,
        oauth_ca: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let v5 = DV::fresh(false);
    let o5 = v5;
    let v6 = DV::fresh(false);
    let o6 = v6;
    let v7 = DV::fresh(false);
    let o7 = v7;
    let v8 = DV::fresh(false);
    let o8 = v8;
    let v9 = DV::fresh(false);
    let o9 = v9;
    let v10 = DV::fresh(false);
    let o10 = v10;
    let v11 = DV::fresh(false);
    let o11 = v11;
    let v12 = DV::fresh(false);
    let o12 = v12;
    let v13 = DV::fresh(false);
    let o13 = v13;
    let v14 = DV::fresh(false);
    let o14 = v14;
    let v15 = DV::fresh(false);
    let o15 = v15;
    let v16 = DV::fresh(false);
    let o16 = v16;
    let v17 = DV::fresh(false);
    let o17 = v17;
    let v18 = DV::fresh(false);
    let o18 = v18;
    let v19 = DV::fresh(false);
    let o19 = v19;
    let v20 = DV::fresh(false);
    let o20 = v20;
    let v21 = DV::fresh(false);
    let o21 = v21;
    let v22 = DV::fresh(false);
    let o22 = v22;
    let v23 = DV::fresh(false);
    let o23 = v23;
    let v24 = DV::fresh(false);
    let o24 = v24;
    let v25 = DV::fresh(false);
    let o25 = v25;
    let v26 = DV::fresh(false);
    let o26 = v26;
    let v27 = DV::fresh(false);
    let o27 = v27;
    let v28 = DV::fresh(false);
    let o28 = v28;
    let v29 = DV::fresh(false);
    let o29 = v29;
    let r = R { oauth_versiom: o0, f1: o1, f2: o2, oauth_Token: o3, oauth_version_: o4, f5: o5, oauth_Callback: o6, f7: o7, oauth_signature_methoe: o8, f9: o9, oauth_nonc: o10, f11: o11, f12: o12, oauth_callback: o13, oauth_versioo: o14, oauth_verifier0: o15, f16: o16, oauth_callbacl: o17, oauthzverifier: o18, f19: o19, oauth_timestamo: o20, oauth_Signature_method: o21, f22: o22, oauth_signature_metho: o23, f24: o24, f25: o25, n: o26, f27: o27, oauth_tokem: o28, oauth_ca: o29 };
    let want = cat(&[cat(&["|9a~", v2.s()]),
        cat(&["|a=", v24.s()]),
        cat(&["|a1=", v9.s()]),
        cat(&["|n=", v26.s()]),
        cat(&["|oauth.token~", v7.s()]),
        cat(&["|oauth_Callback~", v6.s()]),
        cat(&["|oauth_Signature_method~", v21.s()]),
        cat(&["|oauth_Token=", v3.s()]),
        cat(&["|oauth_body_hash=", v16.s()]),
        cat(&["|oauth_ca=", v29.s()]),
        cat(&["|oauth_callbacj=", v25.s()]),
        cat(&["|oauth_callback=", v13.s()]),
        cat(&["|oauth_callback-=", v22.s()]),
        cat(&["|oauth_callbacl=", v17.s()]),
        cat(&["|oauth_nonc=", v10.s()]),
        cat(&["|oauth_signature_metho=", v23.s()]),
        cat(&["|oauth_signature_methoda~", v1.s()]),
        cat(&["|oauth_signature_methoe~", v8.s()]),
        cat(&["|oauth_timestamo=", v20.s()]),
        cat(&["|oauth_timestamq=", v5.s()]),
        cat(&["|oauth_tokem=", v28.s()]),
        cat(&["|oauth_versiom=", v0.s()]),
        cat(&["|oauth_version_=", v4.s()]),
        cat(&["|oauth_versioo=", v14.s()]),
        cat(&["|self=", v11.s()]),
        cat(&["|xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx=", v27.s()]),
        cat(&["|~=", v19.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_373() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "oauth_nonce0")]
        f0: DV,
        oauth_verifier_: DV,
        oauth_tokeo: DV,
        #[oauth1(rename = "_a")]
        f3: DV,
        #[oauth1(rename = "oauth_Signature_method")]
        f4: DV,
        #[oauth1(rename = "Aa")]
        f5: DV,
        #[oauth1(rename = "oauth_token")]
        f6: DV,
        #[oauth1(rename = "oauth_timestamp_")]
        f7: DV,
        oauth_ti: DV,
        #[oauth1(rename = "oauth_ve")]
        f9: DV,
        #[oauth1(rename = "-")]
        f10: DV,
        oauth_noncf: DV,
        oauthztoken: DV,
        #[oauth1(rename = "crate")]
        f13: DV,
        oauth_timestampa: DV,
        #[oauth1(rename = "oauth_version0")]
        f15: DV,
        #[oauth1(rename = "oauth_signature_methoc")]
        f16: DV,
        aA: DV,
        A: DV,
        #[oauth1(rename = "a~")]
        f19: DV,
        oauth_timestam: DV,
        oauthzcallback: DV,
        oauth_Nonce: DV,
        oauth_Version: DV,
        #[oauth1(rename = "oauth_to")]
        f24: DV,
        z: DV,
        #[oauth1(rename = "oauthzsignaturezmethod")]
        f26: DV,
        oauth_Callback: DV,
        Z: DV,
        oauthz: DV,
        oauth_nonce: DV,
        oauthzconsumerzkey: DV,
        o: DV,
        oauthztimestamp: DV,
        #[oauth1(rename = "oauth_version")]
        f34: DV,
        #[oauth1(rename = "oauth_version~")]
        f35: DV,
        oauth_noncd: DV,
        oauth_Token: DV,
        oauth_no: DV,
        __: DV,
        #[oauth1(rename = "oauth_token0")]
        f40: DV,
        #[oauth1(rename = "oauth-token")]
        f41: DV,
        oauth_callbacl: DV,
        oauth_tokena: DV,
        oauth_callback0: DV,
        p: DV,
        oauth_timestamp: DV,
        #[oauth1(rename = "a-b")]
        f47: DV,
        #[oauth1(rename = "n")]
        f48: DV,
        oauth_si: DV,
        oauth_nonc: DV,
        #[oauth1(rename = "oauth_Verifier")]
        f51: DV,
        #[oauth1(rename = "oauth_consumer_key")]
        f52: DV,
        oauth_verifie: DV,
        oauth_timestamp0: DV,
        #[oauth1(rename = "oauth_callback-")]
        f55: DV,
        #[oauth1(rename = "oauth_version.0")]
        f56: DV,
        oauth_callback_: DV,
        #[oauth1(rename = "oauth_token.x")]
        f58: DV,
        oauth_ca: DV,
        #[oauth1(rename = "Oauth_token")]
        f60: DV,
        oauth_verifies: DV,
        #[oauth1(rename = "oauthznonce")]
        f62: DV,
        oauth_versiom: DV,
        oauth_timestamo: DV,
        #[oauth1(rename = "oauth_verifieq")]
        f65: DV,
        #[oauth1(rename = "oauth_token-")]
        f66: DV,
        #[oauth1(rename = "zz")]
        f67: DV,
        oauth_verifiera: DV,
        oauth_versiona: DV,
        oauthzversion: DV,
        oauth_callbac: DV,
        #[oauth1(rename = "oauth_consumer_kez")]
        f72: DV,
        #[oauth1(rename = "9a")]
        f73: DV,
        oauth_nonce_: DV,
        oauth_noncea: DV,
        #[oauth1(rename = "0")]
        f76: DV,
        #[oauth1(rename = "type")]
        f77: DV,
        oauth_: DV,
        oauth_consumer_ke: DV,
        oauth_callbacka: DV,
        oauth_verifier: DV,
        #[oauth1(rename = "oauth_consumer_key_")]
        f82: DV,
        #[oauth1(rename = "a1")]
        f83: DV,
        #[oauth1(rename = "oauth_version_")]
        f84: DV,
        #[oauth1(rename = "Self")]
        f85: DV,
        oauth_signature_methoe: DV,
        oauth_tokem: DV,
        oauth_callback: DV,
        #[oauth1(rename = "oauth_token_")]
        f89: DV,
        a: DV,
        #[oauth1(rename = "~oauth")]
        f91: DV,
        #[oauth1(rename = "oaut")]
        f92: DV,
        oauth_consumer_kex: DV,
        oauth_signature_method0: DV,
        oauth: DV,
        oauth__: DV,
        #[oauth1(rename = ".")]
        f97: DV,
        #[oauth1(rename = "a.b")]
        f98: DV,
        #[oauth1(rename = "oauth_co")]
        f99: DV,
        oauth_signature_method: DV,
        #[oauth1(rename = "oauth_token_secret")]
        f101: DV,
        #[oauth1(rename = "oauth_a")]
        f102: DV,
        #[oauth1(rename = "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx")]
        f103: DV,
        #[oauth1(rename = "oauth_versio")]
        f104: DV,
        #[oauth1(rename = "oauth_callbacj")]
        f105: DV,
        oauth_consumer_key0: DV,
        #[oauth1(rename = "-oauth_token")]
        f107: DV,
        #[oauth1(rename = "oauth~")]
        f108: DV,
        oauth_timestamq: DV,
        oauth_signature_metho: DV,
        #[oauth1(rename = "oauth_token~")]
        f111: DV,
        oauthzverifier: DV,
        #[oauth1(rename = "oauth_body_hash")]
        f113: DV,
        oauth_signature_methoda: DV,
        oauth_versioo: DV,
        #[oauth1(rename = "oauth1")]
        f116: DV,
        #[oauth1(rename = "oauth_z")]
        f117: DV,
        #[oauth1(rename = "oauth_verifier0")]
        f118: DV,
        oauti: DV,
        #[oauth1(rename = "~")]
        f120: DV,
        oauth_consumer_keya: DV,
        #[oauth1(rename = "self")]
        f122: DV,
        oauth_Consumer_key: DV,
        #[oauth1(rename = "oauth_Timestamp")]
        f124: DV,
        a_: DV,
        #[oauth1(rename = "oauth.token")]
        f126: DV,
        #[oauth1(rename = "oauth_signature_method_")]
        f127: DV,
        #[oauth1(rename = "OAUTH_TOKEN")]
        f128: DV,
        oauth_toke: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let v5 = DV::fresh(false);
    let o5 = v5;
    let v6 = DV::fresh(false);
    let o6 = v6;
    let v7 = DV::fresh(false);
    let o7 = v7;
    let v8 = DV::fresh(false);
    let o8 = v8;
    let v9 = DV::fresh(false);
    let o9 = v9;
    let v10 = DV::fresh(false);
    let o10 = v10;
    let v11 = DV::fresh(false);
    let o11 = v11;
    let v12 = DV::fresh(false);
    let o12 = v12;
    let v13 = DV::fresh(false);
    let o13 = v13;
    let v14 = DV::fresh(false);
    let o14 = v14;
    let v15 = DV::fresh(false);
    let o15 = v15;
    let v16 = DV::fresh(false);
    let o16 = v16;
    let v17 = DV::fresh(false);
    let o17 = v17;
    let v18 = DV::fresh(false);
    let o18 = v18;
    let v19 = DV::fresh(false);
    let o19 = v19;
    let v20 = DV::fresh(false);
    let o20 = v20;
    let v21 = DV::fresh(false);
    let o21 = v21;
    let v22 = DV::fresh(false);
    let o22 = v22;
    let v23 = DV::fresh(false);
    let o23 = v23;
    let v24 = DV::fresh(false);
    let o24 = v24;
    let v25 = DV::fresh(false);
    let o25 = v25;
    let v26 = DV::fresh(false);
    let o26 = v26;
    let v27 = DV::fresh(false);
    let o27 = v27;
    let v28 = DV::fresh(false);
    let o28 = v28;
    let v29 = DV::fresh(false);
    let o29 = v29;
    let v30 = DV::fresh(false);
    let o30 = v30;
    let v31 = DV::fresh(false);
    let o31 = v31;
    let v32 = DV::fresh(false);
    let o32 = v32;
    let v33 = DV::fresh(false);
    let o33 = v33;
    let v34 = DV::fresh(false);
    let o34 = v34;
    let v35 = DV::fresh(false);
    let o35 = v35;
    let v36 = DV::fresh(false);
    let o36 = v36;
    let v37 = DV::fresh(false);
    let o37 = v37;
    let v38 = DV::fresh(false);
    let o38 = v38;
    let v39 = DV::fresh(false);
    let o39 = v39;
    let v40 = DV::fresh(false);
    let o40 = v40;
    let v41 = DV::fresh(false);
    let o41 = v41;
    let v42 = DV::fresh(false);
    let o42 = v42;
    let v43 = DV::fresh(false);
    let o43 = v43;
    let v44 = DV::fresh(false);
    let o44 = v44;
    let v45 = DV::fresh(false);
    let o45 = v45;
    let v46 = DV::fresh(false);
    let o46 = v46;
    let v47 = DV::fresh(false);
    let o47 = v47;
    let v48 = DV::fresh(false);
    let o48 = v48;
    let v49 = DV::fresh(false);
    let o49 = v49;
    let v50 = DV::fresh(false);
    let o50 = v50;
    let v51 = DV::fresh(false);
    let o51 = v51;
    let v52 = DV::fresh(false);
    let o52 = v52;
    let v53 = DV::fresh(false);
    let o53 = v53;
    let v54 = DV::fresh(false);
    let o54 = v54;
    let v55 = DV::fresh(false);
    let o55 = v55;
    let v56 = DV::fresh(false);
    let o56 = v56;
    let v57 = DV::fresh(false);
    let o57 = v57;
    let v58 = DV::fresh(false);
    let o58 = v58;
    let v59 = DV::fresh(false);
    let o59 = v59;
    let v60 = DV::fresh(false);
    let o60 = v60;
    let v61 = DV::fresh(false);
    let o61 = v61;
    let v62 = DV::fresh(false);
    let o62 = v62;
    let v63 = DV::fresh(false);
    let o63 = v63;
    let v64 = DV::fresh(false);
    let o64 = v64;
    let v65 = DV::fresh(false);
    let o65 = v65;
    let v66 = DV::fresh(false);
    let o66 = v66;
    let v67 = DV::fresh(false);
    let o67 = v67;
    let v68 = DV::fresh(false);
    let o68 = v68;
    let v69 = DV::fresh(false);
    let o69 = v69;
    let v70 = DV::fresh(false);
    let o70 = v70;
    let v71 = DV::fresh(false);
    let o71 = v71;
    let v72 = DV::fresh(false);
    let o72 = v72;
    let v73 = DV::fresh(false);
    let o73 = v73;
    let v74 = DV::fresh(false);
    let o74 = v74;
    let v75 = DV::fresh(false);
    let o75 = v75;
    let v76 = DV::fresh(false);
    let o76 = v76;
    let v77 = DV::fresh(false);
    let o77 = v77;
    let v78 = DV::fresh(false);
    let o78 = v78;
    let v79 = DV::fresh(false);
    let o79 = v79;
    let v80 = DV::fresh(false);
    let o80 = v80;
    let v81 = DV::fresh(false);
    let o81 = v81;
    let v82 = DV::fresh(false);
    let o82 = v82;
    let v83 = DV::fresh(false);
    let o83 = v83;
    let v84 = DV::fresh(false);
    let o84 = v84;
    let v85 = DV::fresh(false);
    let o85 = v85;
    let v86 = DV::fresh(false);
    let o86 = v86;
    let v87 = DV::fresh(false);
    let o87 = v87;
    let v88 = DV::fresh(false);
    let o88 = v88;
    let v89 = DV::fresh(false);
    let o89 = v89;
    let v90 = DV::fresh(false);
    let o90 = v90;
    let v91 = DV::fresh(false);
    let o91 = v91;
    let v92 = DV::fresh(false);
    let o92 = v92;
    let v93 = DV::fresh(false);
    let o93 = v93;
    let v94 = DV::fresh(false);
    let o94 = v94;
    let v95 = DV::fresh(false);
    let o95 = v95;
    let v96 = DV::fresh(false);
    let o96 = v96;
    let v97 = DV::fresh(false);
    let o97 = v97;
    let v98 = DV::fresh(false);
    let o98 = v98;
    let v99 = DV::fresh(false);
    let o99 = v99;
    let v100 = DV::fresh(false);
    let o100 = v100;
    let v101 = DV::fresh(false);
    let o101 = v101;
    let v102 = DV::fresh(false);
    let o102 = v102;
    let v103 = DV::fresh(false);
    let o103 = v103;
    let v104 = DV::fresh(false);
    let o104 = v104;
    let v105 = DV::fresh(false);
    let o105 = v105;
    let v106 = DV::fresh(false);
    let o106 = v106;
    let v107 = DV::fresh(false);
    let o107 = v107;
    let v108 = DV::fresh(false);
    let o108 = v108;
    let v109 = DV::fresh(false);
    let o109 = v109;
    let v110 = DV::fresh(false);
    let o110 = v110;
    let v111 = DV::fresh(false);
    let o111 = v111;
    let v112 = DV::fresh(false);
    let o112 = v112;
    let v113 = DV::fresh(false);
    let o113 = v113;
    let v114 = DV::fresh(false);
    let o114 = v114;
    let v115 = DV::fresh(false);
    let o115 = v115;
    let v116 = DV::fresh(false);
    let o116 = v116;
    let v117 = DV::fresh(false);
    let o117 = v117;
    let v118 = DV::fresh(false);
    let o118 = v118;
    let v119 = DV::fresh(false);
    let o119 = v119;
    let v120 = DV::fresh(false);
    let o120 = v120;
    let v121 = DV::fresh(false);
    let o121 = v121;
    let v122 = DV::fresh(false);
    let o122 = v122;
    let v123 = DV::fresh(false);
    let o123 = v123;
    let v124 = DV::fresh(false);
    let o124 = v124;
    let v125 = DV::fresh(false);
    let o125 = v125;
    let v126 = DV::fresh(false);
    let o126 = v126;
    let v127 = DV::fresh(false);
    let o127 = v127;
    let v128 = DV::fresh(false);
    let o128 = v128;
    let v129 = DV::fresh(false);
    let o129 = v129;
    let r = R { f0: o0, oauth_verifier_: o1, oauth_tokeo: o2, f3: o3, f4: o4, f5: o5, f6: o6, f7: o7, oauth_ti: o8, f9: o9, f10: o10, oauth_noncf: o11, oauthztoken: o12, f13: o13, oauth_timestampa: o14, f15: o15, f16: o16, aA: o17, A: o18, f19: o19, oauth_timestam: o20, oauthzcallback: o21, oauth_Nonce: o22, oauth_Version: o23, f24: o24, z: o25, f26: o26, oauth_Callback: o27, Z: o28, oauthz: o29, oauth_nonce: o30, oauthzconsumerzkey: o31, o: o32, oauthztimestamp: o33, f34: o34, f35: o35, oauth_noncd: o36, oauth_Token: o37, oauth_no: o38, __: o39, f40: o40, f41: o41, oauth_callbacl: o42, oauth_tokena: o43, oauth_callback0: o44, p: o45, oauth_timestamp: o46, f47: o47, f48: o48, oauth_si: o49, oauth_nonc: o50, f51: o51, f52: o52, oauth_verifie: o53, oauth_timestamp0: o54, f55: o55, f56: o56, oauth_callback_: o57, f58: o58, oauth_ca: o59, f60: o60, oauth_verifies: o61, f62: o62, oauth_versiom: o63, oauth_timestamo: o64, f65: o65, f66: o66, f67: o67, oauth_verifiera: o68, oauth_versiona: o69, oauthzversion: o70, oauth_callbac: o71, f72: o72, f73: o73, oauth_nonce_: o74, oauth_noncea: o75, f76: o76, f77: o77, oauth_: o78, oauth_consumer_ke: o79, oauth_callbacka: o80, oauth_verifier: o81, f82: o82, f83: o83, f84: o84, f85: o85, oauth_signature_methoe: o86, oauth_tokem: o87, oauth_callback: o88, f89: o89, a: o90, f91: o91, f92: o92, oauth_consumer_kex: o93, oauth_signature_method0: o94, oauth: o95, oauth__: o96, f97: o97, f98: o98, f99: o99, oauth_signature_method: o100, f101: o101, f102: o102, f103: o103, f104: o104, f105: o105, oauth_consumer_key0: o106, f107: o107, f108: o108, oauth_timestamq: o109, oauth_signature_metho: o110, f111: o111, oauthzverifier: o112, f113: o113, oauth_signature_methoda: o114, oauth_versioo: o115, f116: o116, f117: o117, f118: o118, oauti: o119, f120: o120, oauth_consumer_keya: o121, f122: o122, oauth_Consumer_key: o123, f124: o124, a_: o125, f126: o126, f127: o127, f128: o128, oauth_toke: o129 };
    let want = cat(&[cat(&["|-=", v10.s()]),
        cat(&["|-oauth_token=", v107.s()]),
        cat(&["|.=", v97.s()]),
        cat(&["|0=", v76.s()]),
        cat(&["|9a=", v73.s()]),
        cat(&["|A=", v18.s()]),
        cat(&["|Aa=", v5.s()]),
        cat(&["|OAUTH_TOKEN=", v128.s()]),
        cat(&["|Oauth_token=", v60.s()]),
        cat(&["|Self=", v85.s()]),
        cat(&["|Z=", v28.s()]),
        cat(&["|__=", v39.s()]),
        cat(&["|_a=", v3.s()]),
        cat(&["|a=", v90.s()]),
        cat(&["|a-b=", v47.s()]),
        cat(&["|a.b=", v98.s()]),
        cat(&["|a1=", v83.s()]),
        cat(&["|aA=", v17.s()]),
        cat(&["|a_=", v125.s()]),
        cat(&["|a~=", v19.s()]),
        cat(&["|crate=", v13.s()]),
        cat(&["|n=", v48.s()]),
        cat(&["|o=", v32.s()]),
        cat(&["|oaut=", v92.s()]),
        cat(&["|oauth=", v95.s()]),
        cat(&["|oauth-token=", v41.s()]),
        cat(&["|oauth.token=", v126.s()]),
        cat(&["|oauth1=", v116.s()]),
        cat(&["|oauth_=", v78.s()]),
        cat(&["|oauth_Callback=", v27.s()]),
        cat(&["|oauth_Consumer_key=", v123.s()]),
        cat(&["|oauth_Nonce=", v22.s()]),
        cat(&["|oauth_Signature_method=", v4.s()]),
        cat(&["|oauth_Timestamp=", v124.s()]),
        cat(&["|oauth_Token=", v37.s()]),
        cat(&["|oauth_Verifier=", v51.s()]),
        cat(&["|oauth_Version=", v23.s()]),
        cat(&["|oauth__=", v96.s()]),
        cat(&["|oauth_a=", v102.s()]),
        cat(&["|oauth_body_hash=", v113.s()]),
        cat(&["|oauth_ca=", v59.s()]),
        cat(&["|oauth_callbac=", v71.s()]),
        cat(&["|oauth_callbacj=", v105.s()]),
        cat(&["|oauth_callback=", v88.s()]),
        cat(&["|oauth_callback-=", v55.s()]),
        cat(&["|oauth_callback0=", v44.s()]),
        cat(&["|oauth_callback_=", v57.s()]),
        cat(&["|oauth_callbacka=", v80.s()]),
        cat(&["|oauth_callbacl=", v42.s()]),
        cat(&["|oauth_co=", v99.s()]),
        cat(&["|oauth_consumer_ke=", v79.s()]),
        cat(&["|oauth_consumer_kex=", v93.s()]),
        cat(&["|oauth_consumer_key=", v52.s()]),
        cat(&["|oauth_consumer_key0=", v106.s()]),
        cat(&["|oauth_consumer_key_=", v82.s()]),
        cat(&["|oauth_consumer_keya=", v121.s()]),
        cat(&["|oauth_consumer_kez=", v72.s()]),
        cat(&["|oauth_no=", v38.s()]),
        cat(&["|oauth_nonc=", v50.s()]),
        cat(&["|oauth_noncd=", v36.s()]),
        cat(&["|oauth_nonce=", v30.s()]),
        cat(&["|oauth_nonce0=", v0.s()]),
        cat(&["|oauth_nonce_=", v74.s()]),
        cat(&["|oauth_noncea=", v75.s()]),
        cat(&["|oauth_noncf=", v11.s()]),
        cat(&["|oauth_si=", v49.s()]),
        cat(&["|oauth_signature_metho=", v110.s()]),
        cat(&["|oauth_signature_methoc=", v16.s()]),
        cat(&["|oauth_signature_method=", v100.s()]),
        cat(&["|oauth_signature_method0=", v94.s()]),
        cat(&["|oauth_signature_method_=", v127.s()]),
        cat(&["|oauth_signature_methoda=", v114.s()]),
        cat(&["|oauth_signature_methoe=", v86.s()]),
        cat(&["|oauth_ti=", v8.s()]),
        cat(&["|oauth_timestam=", v20.s()]),
        cat(&["|oauth_timestamo=", v64.s()]),
        cat(&["|oauth_timestamp=", v46.s()]),
        cat(&["|oauth_timestamp0=", v54.s()]),
        cat(&["|oauth_timestamp_=", v7.s()]),
        cat(&["|oauth_timestampa=", v14.s()]),
        cat(&["|oauth_timestamq=", v109.s()]),
        cat(&["|oauth_to=", v24.s()]),
        cat(&["|oauth_toke=", v129.s()]),
        cat(&["|oauth_tokem=", v87.s()]),
        cat(&["|oauth_token=", v6.s()]),
        cat(&["|oauth_token-=", v66.s()]),
        cat(&["|oauth_token.x=", v58.s()]),
        cat(&["|oauth_token0=", v40.s()]),
        cat(&["|oauth_token_=", v89.s()]),
        cat(&["|oauth_token_secret=", v101.s()]),
        cat(&["|oauth_tokena=", v43.s()]),
        cat(&["|oauth_token~=", v111.s()]),
        cat(&["|oauth_tokeo=", v2.s()]),
        cat(&["|oauth_ve=", v9.s()]),
        cat(&["|oauth_verifie=", v53.s()]),
        cat(&["|oauth_verifieq=", v65.s()]),
        cat(&["|oauth_verifier=", v81.s()]),
        cat(&["|oauth_verifier0=", v118.s()]),
        cat(&["|oauth_verifier_=", v1.s()]),
        cat(&["|oauth_verifiera=", v68.s()]),
        cat(&["|oauth_verifies=", v61.s()]),
        cat(&["|oauth_versio=", v104.s()]),
        cat(&["|oauth_versiom=", v63.s()]),
        cat(&["|oauth_version=", v34.s()]),
        cat(&["|oauth_version.0=", v56.s()]),
        cat(&["|oauth_version0=", v15.s()]),
        cat(&["|oauth_version_=", v84.s()]),
        cat(&["|oauth_versiona=", v69.s()]),
        cat(&["|oauth_version~=", v35.s()]),
        cat(&["|oauth_versioo=", v115.s()]),
        cat(&["|oauth_z=", v117.s()]),
        cat(&["|oauthz=", v29.s()]),
        cat(&["|oauthzcallback=", v21.s()]),
        cat(&["|oauthzconsumerzkey=", v31.s()]),
        cat(&["|oauthznonce=", v62.s()]),
        cat(&["|oauthzsignaturezmethod=", v26.s()]),
        cat(&["|oauthztimestamp=", v33.s()]),
        cat(&["|oauthztoken=", v12.s()]),
        cat(&["|oauthzverifier=", v112.s()]),
        cat(&["|oauthzversion=", v70.s()]),
        cat(&["|oauth~=", v108.s()]),
        cat(&["|oauti=", v119.s()]),
        cat(&["|p=", v45.s()]),
        cat(&["|self=", v122.s()]),
        cat(&["|type=", v77.s()]),
        cat(&["|xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx=", v103.s()]),
        cat(&["|z=", v25.s()]),
        cat(&["|zz=", v67.s()]),
        cat(&["|~=", v120.s()]),
        cat(&["|~oauth=", v91.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_374() {
    #[derive(oauth::Request)]
    struct R {
        a: DV,
        oauth_callback: DV,
        oauth_callback_: DV,
        oauth_consumer_key: DV,
        oauth_consumer_key_: DV,
        oauth_nonce: DV,
        oauth_nonce_: DV,
        oauth_signature_method: DV,
        oauth_signature_method_: DV,
        oauth_timestamp: DV,
        oauth_timestamp_: DV,
        oauth_token: DV,
        oauth_token_: DV,
        oauth_verifier: DV,
        oauth_verifier_: DV,
        oauth_version: DV,
        oauth_version_: DV,
        zz: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let v5 = DV::fresh(false);
    let o5 = v5;
    let v6 = DV::fresh(false);
    let o6 = v6;
    let v7 = DV::fresh(false);
    let o7 = v7;
    let v8 = DV::fresh(false);
    let o8 = v8;
    let v9 = DV::fresh(false);
    let o9 = v9;
    let v10 = DV::fresh(false);
    let o10 = v10;
    let v11 = DV::fresh(false);
    let o11 = v11;
    let v12 = DV::fresh(false);
    let o12 = v12;
    let v13 = DV::fresh(false);
    let o13 = v13;
    let v14 = DV::fresh(false);
    let o14 = v14;
    let v15 = DV::fresh(false);
    let o15 = v15;
    let v16 = DV::fresh(false);
    let o16 = v16;
    let v17 = DV::fresh(false);
    let o17 = v17;
    let r = R { a: o0, oauth_callback: o1, oauth_callback_: o2, oauth_consumer_key: o3, oauth_consumer_key_: o4, oauth_nonce: o5, oauth_nonce_: o6, oauth_signature_method: o7, oauth_signature_method_: o8, oauth_timestamp: o9, oauth_timestamp_: o10, oauth_token: o11, oauth_token_: o12, oauth_verifier: o13, oauth_verifier_: o14, oauth_version: o15, oauth_version_: o16, zz: o17 };
    let want = cat(&[cat(&["|a=", v0.s()]),
        cat(&["|oauth_callback=", v1.s()]),
        cat(&["|oauth_callback_=", v2.s()]),
        cat(&["|oauth_consumer_key=", v3.s()]),
        cat(&["|oauth_consumer_key_=", v4.s()]),
        cat(&["|oauth_nonce=", v5.s()]),
        cat(&["|oauth_nonce_=", v6.s()]),
        cat(&["|oauth_signature_method=", v7.s()]),
        cat(&["|oauth_signature_method_=", v8.s()]),
        cat(&["|oauth_timestamp=", v9.s()]),
        cat(&["|oauth_timestamp_=", v10.s()]),
        cat(&["|oauth_token=", v11.s()]),
        cat(&["|oauth_token_=", v12.s()]),
        cat(&["|oauth_verifier=", v13.s()]),
        cat(&["|oauth_verifier_=", v14.s()]),
        cat(&["|oauth_version=", v15.s()]),
        cat(&["|oauth_version_=", v16.s()]),
        cat(&["|zz=", v17.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_375() {
    #[derive(oauth::Request)]
    struct R {
        zz: DV,
        oauth_version_: DV,
        oauth_version: DV,
        oauth_verifier_: DV,
        oauth_verifier: DV,
        oauth_token_: DV,
        oauth_token: DV,
        oauth_timestamp_: DV,
        oauth_timestamp: DV,
        oauth_signature_method_: DV,
        oauth_signature_method: DV,
        oauth_nonce_: DV,
        oauth_nonce: DV,
        oauth_consumer_key_: DV,
        oauth_consumer_key: DV,
        oauth_callback_: DV,
        oauth_callback: DV,
        a: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let v3 = DV::fresh(false);
    let o3 = v3;
    let v4 = DV::fresh(false);
    let o4 = v4;
    let v5 = DV::fresh(false);
    let o5 = v5;
    let v6 = DV::fresh(false);
    let o6 = v6;
    let v7 = DV::fresh(false);
    let o7 = v7;
    let v8 = DV::fresh(false);
    let o8 = v8;
    let v9 = DV::fresh(false);
    let o9 = v9;
    let v10 = DV::fresh(false);
    let o10 = v10;
    let v11 = DV::fresh(false);
    let o11 = v11;
    let v12 = DV::fresh(false);
    let o12 = v12;
    let v13 = DV::fresh(false);
    let o13 = v13;
    let v14 = DV::fresh(false);
    let o14 = v14;
    let v15 = DV::fresh(false);
    let o15 = v15;
    let v16 = DV::fresh(false);
    let o16 = v16;
    let v17 = DV::fresh(false);
    let o17 = v17;
    let r = R { zz: o0, oauth_version_: o1, oauth_version: o2, oauth_verifier_: o3, oauth_verifier: o4, oauth_token_: o5, oauth_token: o6, oauth_timestamp_: o7, oauth_timestamp: o8, oauth_signature_method_: o9, oauth_signature_method: o10, oauth_nonce_: o11, oauth_nonce: o12, oauth_consumer_key_: o13, oauth_consumer_key: o14, oauth_callback_: o15, oauth_callback: o16, a: o17 };
    let want = cat(&[cat(&["|a=", v17.s()]),
        cat(&["|oauth_callback=", v16.s()]),
        cat(&["|oauth_callback_=", v15.s()]),
        cat(&["|oauth_consumer_key=", v14.s()]),
        cat(&["|oauth_consumer_key_=", v13.s()]),
        cat(&["|oauth_nonce=", v12.s()]),
        cat(&["|oauth_nonce_=", v11.s()]),
        cat(&["|oauth_signature_method=", v10.s()]),
        cat(&["|oauth_signature_method_=", v9.s()]),
        cat(&["|oauth_timestamp=", v8.s()]),
        cat(&["|oauth_timestamp_=", v7.s()]),
        cat(&["|oauth_token=", v6.s()]),
        cat(&["|oauth_token_=", v5.s()]),
        cat(&["|oauth_verifier=", v4.s()]),
        cat(&["|oauth_verifier_=", v3.s()]),
        cat(&["|oauth_version=", v2.s()]),
        cat(&["|oauth_version_=", v1.s()]),
        cat(&["|zz=", v0.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_376() {
    #[derive(oauth::Request)]
    struct R {
    }
    let r = R {  };
    let want = "";
    feeds("C30", &r, want);
}

pub fn e_c30_derived_377() {
    #[derive(oauth::Request)]
    struct R {
        b: DV,
        #[oauth1(skip)]
        a: DV,
        #[oauth1(rename = "a")]
        c: DV,
        #[oauth1(rename = "oauth_token")]
        d: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let v3 = DV::fresh(false);
    let o3 = v3;
    let r = R { b: o0, a: o1, c: o2, d: o3 };
    let want = cat(&[cat(&["|a=", v2.s()]),
        cat(&["|b=", v0.s()]),
        cat(&["|oauth_token=", v3.s()])]);
    feeds("C30", &r, want);
}

pub fn e_c30_derived_378() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(skip)]
        a: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let r = R { a: o0 };
    let want = "";
    feeds("C30", &r, want);
}

pub fn e_c30_derived_379() {
    #[derive(oauth::Request)]
    struct R {
        #[oauth1(rename = "b")]
        a: DV,
        #[oauth1(rename = "a")]
        b: DV,
        #[oauth1(rename = "z")]
        oauth_token: DV,
        #[oauth1(rename = "oauth_token")]
        z: DV,
    }
    let v0 = DV::fresh(false);
    let o0 = v0;
    let v1 = DV::fresh(false);
    let o1 = v1;
    let v2 = DV::fresh(false);
    let o2 = v2;
    let v3 = DV::fresh(false);
    let o3 = v3;
    let r = R { a: o0, b: o1, oauth_token: o2, z: o3 };
    let want = cat(&[cat(&["|a=", v1.s()]),
        cat(&["|b=", v0.s()]),
        cat(&["|oauth_token=", v3.s()]),
        cat(&["|z=", v2.s()])]);
    feeds("C30", &r, want);
}
