"""Writes verus/skinning.rs: the same contract for each of the 25 functions the macros of skinning_job.rs make."""
import os
HEAD = r'''// C12, C19: skinning, over the real numbers (written by tools/gen_skin.py).
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
//@include simd.rs
//@include glam.rs
verus! {
use sd::*;
use gl::*;
broadcast use {sd::ops, sd::fof, gl::mat_add_ax};
global size_of usize == 8;
//@include bufs.rs
//@real

fn max_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }

//@item src/skinning_job.rs struct SkinningJob
//@sub (?m)^(\s+)(\w+): (Option|usize) ==> \1pub \2: \3
//@sub  = Rc<RefCell<Vec<\w+>>> ==>
//@end

// The first j of the influences of a vertex: sum of the weights, and entry c of the weighted sum of the matrices.
pub open spec fn wsum(w: Seq<F>, wo: int, j: int) -> real decreases j {
    if j <= 0 { 0real } else { wsum(w, wo, j - 1) + w[wo + j - 1].v() }
}
pub open spec fn psum(ms: Seq<Mat4>, idx: Seq<u16>, w: Seq<F>, io: int, wo: int, j: int, c: int) -> real decreases j {
    if j <= 0 { 0real } else { psum(ms, idx, w, io, wo, j - 1, c) + ms[idx[io + j - 1] as int].e(c) * w[wo + j - 1].v() }
}
// Entry c of the matrix of vertex i with n influences: the last weight is one minus the others.
pub open spec fn skin(ms: Seq<Mat4>, idx: Seq<u16>, w: Seq<F>, n: int, i: int, c: int) -> real {
    psum(ms, idx, w, i * n, i * (n - 1), n - 1, c) + ms[idx[i * n + n - 1] as int].e(c) * (1real - wsum(w, i * (n - 1), n - 1))
}
#[verifier::opaque]
pub open spec fn is_point(r: Vec3, p: Vec3, ms: Seq<Mat4>, idx: Seq<u16>, w: Seq<F>, n: int, i: int) -> bool {
    applied(r, SKIN0, p)
}
#[verifier::opaque]
pub open spec fn is_dir(r: Vec3, p: Vec3, ms: Seq<Mat4>, idx: Seq<u16>, w: Seq<F>, n: int, i: int) -> bool {
    applied(r, SKIN1, 0real, 0real, 0real, p)
}
pub open spec fn ready<T, B: OzzBuf<T>>(b: Option<B>, size: int) -> bool { b.is_some() && !b->0.poisoned() && b->0.content().len() >= size }
pub open spec fn same<T, B: OzzBuf<T>>(a: Option<B>, b: Option<B>) -> bool {
    a.is_some() == b.is_some() && (a.is_some() ==> a->0.content() == b->0.content() && a->0.poisoned() == b->0.poisoned())
}
// Every joint index of the vertices has a matrix.
pub open spec fn indexed(idx: Seq<u16>, count: int, len: int) -> bool { forall|k: int| 0 <= k < count ==> (#[trigger] idx[k]) < len }

//@fn src/skinning_job.rs unpack_buf
//@sub B::Buf<'_> ==> &[T]
//@sub where(.|\n)* ==>
//@sub <T, B> ==> <T, B: OzzBuf<T>>
//@ret r
//@spec
    ensures match r {
        Ok(s) => ready::<T, B>(*ozz_buf, size as int) && s@ == ozz_buf->0.content() && s@.len() < usize::MAX,
        Err(e) => !ready::<T, B>(*ozz_buf, size as int) && e == (if ozz_buf.is_some() && ozz_buf->0.poisoned() { OzzError::LockPoison } else { OzzError::InvalidJob }),
    }
//@end
//@fn src/skinning_job.rs unpack_mut_buf
//@sub B::MutBuf<'_> ==> &mut [T]
//@sub where(.|\n)* ==>
//@sub <T, B> ==> <T, B: OzzMutBuf<T>>
//@ret r
//@spec
    ensures
        final(ozz_buf).is_some() == old(ozz_buf).is_some(),
        old(ozz_buf).is_some() ==> final(ozz_buf)->0.poisoned() == old(ozz_buf)->0.poisoned(),
        match r {
            Ok(s) => ready::<T, B>(*old(ozz_buf), size as int) && s@ == old(ozz_buf)->0.content() && final(s)@ == final(ozz_buf)->0.content(),
            Err(e) => !ready::<T, B>(*old(ozz_buf), size as int) && same::<T, B>(*old(ozz_buf), *final(ozz_buf))
                && e == (if old(ozz_buf).is_some() && old(ozz_buf)->0.poisoned() { OzzError::LockPoison } else { OzzError::InvalidJob }),
        }
//@end
//@fn src/skinning_job.rs mat4_col_mul
//@ret r
//@spec
    ensures forall|c: int| 0 <= c < 16 ==> #[trigger] r.e(c) == m.e(c) * v.e(c % 4)
//@end

impl<JM: OzzBuf<Mat4>, JI: OzzBuf<u16>, JW: OzzBuf<F>, I: OzzBuf<Vec3>, O: OzzMutBuf<Vec3>> SkinningJob<JM, JI, JW, I, O> {
    pub open spec fn ms(&self) -> Seq<Mat4> { self.joint_matrices->0.content() }
    pub open spec fn its(&self) -> Seq<Mat4> { self.joint_it_matrices->0.content() }
    pub open spec fn idx(&self) -> Seq<u16> { self.joint_indices->0.content() }
    pub open spec fn wts(&self) -> Seq<F> { self.joint_weights->0.content() }
    pub open spec fn points_done(&self, o: Vec3, n: int, i: int) -> bool { is_point(o, self.in_positions->0.content()[i], self.ms(), self.idx(), self.wts(), n, i) }
    pub open spec fn normals_done(&self, o: Vec3, it: bool, n: int, i: int) -> bool {
        is_dir(o, self.in_normals->0.content()[i], if it { self.its() } else { self.ms() }, self.idx(), self.wts(), n, i)
    }
    pub open spec fn tangents_done(&self, o: Vec3, it: bool, n: int, i: int) -> bool {
        is_dir(o, self.in_tangents->0.content()[i], if it { self.its() } else { self.ms() }, self.idx(), self.wts(), n, i)
    }
    pub open spec fn inputs_kept(&self, o: Self) -> bool {
        &&& self.vertex_count == o.vertex_count && self.influences_count == o.influences_count
        &&& self.joint_matrices == o.joint_matrices && self.joint_it_matrices == o.joint_it_matrices
        &&& self.joint_indices == o.joint_indices && self.joint_weights == o.joint_weights
        &&& self.in_positions == o.in_positions && self.in_normals == o.in_normals && self.in_tangents == o.in_tangents
    }
    // Everything the function with n influences reads and writes is there and long enough.
    pub open spec fn gates(&self, n: int, it: bool, normals: bool, tangents: bool) -> bool {
        let vc = self.vertex_count as int;
        &&& ready::<Mat4, JM>(self.joint_matrices, 0) && (it ==> ready::<Mat4, JM>(self.joint_it_matrices, 0))
        &&& ready::<u16, JI>(self.joint_indices, vc * n) && (n > 1 ==> ready::<F, JW>(self.joint_weights, vc * (n - 1)))
        &&& ready::<Vec3, I>(self.in_positions, vc) && ready::<Vec3, O>(self.out_positions, vc)
        &&& normals ==> ready::<Vec3, I>(self.in_normals, vc) && ready::<Vec3, O>(self.out_normals, vc)
        &&& tangents ==> ready::<Vec3, I>(self.in_tangents, vc) && ready::<Vec3, O>(self.out_tangents, vc)
    }
    pub open spec fn indices_ok(&self, n: int, it: bool) -> bool {
        indexed(self.idx(), self.vertex_count * n, self.ms().len() as int) && (it ==> indexed(self.idx(), self.vertex_count * n, self.its().len() as int))
    }
    pub open spec fn outputs_kept(&self, o: Self) -> bool {
        same::<Vec3, O>(self.out_positions, o.out_positions) && same::<Vec3, O>(self.out_normals, o.out_normals) && same::<Vec3, O>(self.out_tangents, o.out_tangents)
    }
    pub open spec fn written(&self, o: Self, n: int, it: bool, normals: bool, tangents: bool) -> bool {
        let vc = self.vertex_count as int;
        let p = o.out_positions->0.content();
        let nn = o.out_normals->0.content();
        let tt = o.out_tangents->0.content();
        &&& o.out_positions.is_some() && p.len() == self.out_positions->0.content().len()
        &&& forall|i: int| 0 <= i < vc ==> self.points_done(#[trigger] p[i], n, i)
        &&& forall|i: int| vc <= i < p.len() ==> #[trigger] p[i] == self.out_positions->0.content()[i]
        &&& if normals {
            &&& o.out_normals.is_some() && nn.len() == self.out_normals->0.content().len()
            &&& forall|i: int| 0 <= i < vc ==> self.normals_done(#[trigger] nn[i], it, n, i)
            &&& forall|i: int| vc <= i < nn.len() ==> #[trigger] nn[i] == self.out_normals->0.content()[i]
        } else { same::<Vec3, O>(self.out_normals, o.out_normals) }
        &&& if tangents {
            &&& o.out_tangents.is_some() && tt.len() == self.out_tangents->0.content().len()
            &&& forall|i: int| 0 <= i < vc ==> self.tangents_done(#[trigger] tt[i], it, n, i)
            &&& forall|i: int| vc <= i < tt.len() ==> #[trigger] tt[i] == self.out_tangents->0.content()[i]
        } else { same::<Vec3, O>(self.out_tangents, o.out_tangents) }
    }
    // The job's contract for one function of the dispatch.
    pub open spec fn skinned(&self, o: Self, r: Result<(), OzzError>, n: int, it: bool, normals: bool, tangents: bool) -> bool {
        &&& self.inputs_kept(o)
        &&& r.is_ok() == (self.gates(n, it, normals, tangents) && self.indices_ok(n, it))
        &&& r.is_ok() ==> self.written(o, n, it, normals, tangents)
        &&& r.is_err() && self.gates(n, it, normals, tangents) ==> r->Err_0 == OzzError::InvalidIndex
        &&& !self.gates(n, it, normals, tangents) ==> self.outputs_kept(o) && (r->Err_0 == OzzError::InvalidJob || r->Err_0 == OzzError::LockPoison)
    }
'''
sk = lambda cs: ", ".join(f"skin(ms, idx, w, n, i, {c})" for c in cs)
HEAD = HEAD.replace("SKIN0", sk([0,1,2,4,5,6,8,9,10,12,13,14])).replace("SKIN1", sk([0,1,2,4,5,6,8,9,10]))

def fn(n, pnt, it):
    name = f"skinning_{n}_{pnt.lower()}" + ("_it" if it else "")
    nn = "old(self).influences_count as int" if n == "n" else f"{n}"
    b = lambda x: "true" if x else "false"
    nor, tan = len(pnt) > 1, len(pnt) > 2
    t = "#[verifier::loop_isolation(false)]\n"
    t += f"//@fn src/skinning_job.rs! SkinningJob::{name}\n"
    if n != 1:
        t += r"//@sub \b(Vec4)::(ONE)\b ==> \1::\2()" + "\n"
        t += r"//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)" + "\n"
    t += "//@sub ;(\\s*;)+ ==> ;\n" if n != 1 or not it else ""
    t += "//@ret r\n//@spec\n"
    if n == "n":
        t += "    requires old(self).influences_count >= 2\n"
    t += f"    ensures old(self).skinned(*final(self), r, {nn}, {b(it)}, {b(nor)}, {b(tan)})\n"
    outs = [("out_positions", "points_done", "")] + ([("out_normals", "normals_done", f"{b(it)}, ")] if nor else []) + ([("out_tangents", "tangents_done", f"{b(it)}, ")] if tan else [])
    G = {1: "1", "n": "n as int"}.get(n, str(n))
    t += f"//@pre 1\n    let ghost job = *old(self); let ghost gn: int = {G}; let ghost vc = self.vertex_count as int;\n    assert(0 * gn == 0) by (nonlinear_arith);\n"
    for o, d, _ in outs:
        t += f"    let ghost {o}0 = {o}@;\n"
    t += "//@loop 1 for i in 0..self.vertex_count\n    invariant\n"
    t += f"        indexed(job.idx(), i * gn, job.ms().len() as int),\n"
    if it:
        t += f"        indexed(job.idx(), i * gn, job.its().len() as int),\n"
    for o, d, a in outs:
        t += f"        {o}@.len() == {o}0.len(), forall|k: int| 0 <= k < i ==> job.{d}(#[trigger] {o}@[k], {a}gn, k),\n"
        t += f"        forall|k: int| i <= k < {o}@.len() ==> #[trigger] {o}@[k] == {o}0[k],\n"
    t += "//@start 1\n"
    t += "    proof { offsets(i as int, gn, vc); }\n"
    if n != 1:
        t += f"//@loop 2 for j in 1..max_usize({n} - 1, 1)\n    invariant\n"
        t += f"        indexed(job.idx(), i * gn + j, job.ms().len() as int),\n"
        t += "        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),\n"
        if it:
            t += f"        indexed(job.idx(), i * gn + j, job.its().len() as int),\n"
            t += "        forall|c: int| 0 <= c < 16 ==> #[trigger] transform_it.e(c) == psum(job.its(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),\n"
        t += "        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),\n"
        for o, d, a in outs:
            t += f"        {o}@ == before_{o},\n"
        t += "//@pre 2\n"
        for o, d, a in outs:
            t += f"    let ghost before_{o} = {o}@;\n"
        t += "    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }\n"
    t += "//@stop 1\n    proof {\n"
    if n == 1:
        t += "        one(job.ms(), job.idx(), job.wts(), i as int);\n" + ("        one(job.its(), job.idx(), job.wts(), i as int);\n" if it else "")
        m, mi = "job.ms()[job.idx()[i as int] as int]", ("job.its()" if it else "job.ms()") + "[job.idx()[i as int] as int]"
    else:
        m, mi = "transform", "transform_it" if it else "transform"
    ji = "job.its()" if it else "job.ms()"
    t += f"        point_is(out_positions@[i as int], in_positions@[i as int], {m}, job.ms(), job.idx(), job.wts(), gn, i as int);\n"
    for o, d, a in outs[1:]:
        t += f"        dir_is({o}@[i as int], {o.replace('out','in')}@[i as int], {mi}, {ji}, job.idx(), job.wts(), gn, i as int);\n"
    t += "    }\n//@end\n"
    return t


RUN = r"""
    // What validate promises.
    pub open spec fn valid(&self) -> bool {
        let vc = self.vertex_count as int;
        let n = self.influences_count as int;
        &&& n > 0 && ready::<Mat4, JM>(self.joint_matrices, 1)
        &&& ready::<u16, JI>(self.joint_indices, vc * n) && (n > 1 ==> ready::<F, JW>(self.joint_weights, vc * (n - 1)))
        &&& ready::<Vec3, I>(self.in_positions, vc) && ready::<Vec3, O>(self.out_positions, vc)
        &&& self.in_normals.is_some() ==> ready::<Vec3, I>(self.in_normals, vc) && ready::<Vec3, O>(self.out_normals, vc)
        &&& self.in_tangents.is_some() ==> self.in_normals.is_some() && ready::<Vec3, I>(self.in_tangents, vc) && ready::<Vec3, O>(self.out_tangents, vc)
    }
    pub open spec fn with_it(&self) -> bool { self.in_normals.is_some() && self.joint_it_matrices.is_some() }
//@fn src/skinning_job.rs SkinningJob::run
//@sub \\(([^()]*)\\)\\.min\\(4\\) ==> min_usize(\\1, 4)
//@sub _ => unreachable!\\(\\) ==> _ => { assert(false); Ok(()) }
//@ret r
//@spec
    ensures ({
        let o = *old(self);
        let n = o.influences_count as int;
        &&& o.inputs_kept(*final(self))
        &&& !o.valid() ==> r.is_err() && o.outputs_kept(*final(self)) && (r->Err_0 == OzzError::InvalidJob || r->Err_0 == OzzError::LockPoison)
        &&& r.is_ok() == (o.valid() && (o.with_it() ==> ready::<Mat4, JM>(o.joint_it_matrices, 0)) && o.indices_ok(n, o.with_it()))
        &&& r.is_ok() ==> o.written(*final(self), n, o.with_it(), o.in_normals.is_some(), o.in_tangents.is_some())
    })
//@end
//@fn src/skinning_job.rs SkinningJob::validate
//@sub ^\\s*\\(\\|\\| ==>
//@sub \\)\\(\\)\\s*\\.unwrap_or\\(false\\)\\s*$ ==>
//@sub -> bool ==> -> Option<bool>
//@sub ok &= ([^;]*); ==> let c = \\1; ok = ok && c;
//@ret r
//@spec
    ensures (r == Some(true)) == self.valid()
//@end
""".replace("\\\\", "\\")
TAIL = r"""
proof fn point_is(r: Vec3, p: Vec3, m: Mat4, ms: Seq<Mat4>, idx: Seq<u16>, w: Seq<F>, n: int, i: int)
    requires forall|c: int| 0 <= c < 16 ==> #[trigger] m.e(c) == skin(ms, idx, w, n, i, c), m.point(r, p)
    ensures is_point(r, p, ms, idx, w, n, i)
{ reveal(is_point); }
proof fn dir_is(r: Vec3, p: Vec3, m: Mat4, ms: Seq<Mat4>, idx: Seq<u16>, w: Seq<F>, n: int, i: int)
    requires forall|c: int| 0 <= c < 16 ==> #[trigger] m.e(c) == skin(ms, idx, w, n, i, c), m.vector(r, p)
    ensures is_dir(r, p, ms, idx, w, n, i)
{ reveal(is_dir); }
proof fn one(ms: Seq<Mat4>, idx: Seq<u16>, w: Seq<F>, i: int)
    ensures forall|c: int| 0 <= c < 16 ==> #[trigger] ms[idx[i] as int].e(c) == skin(ms, idx, w, 1, i, c)
{
    assert forall|c: int| 0 <= c < 16 implies #[trigger] ms[idx[i] as int].e(c) == skin(ms, idx, w, 1, i, c) by {
        reveal_with_fuel(psum, 1); reveal_with_fuel(wsum, 1);
        let x = ms[idx[i] as int].e(c);
        assert(x * (1real - 0real) == x) by (nonlinear_arith);
    }
}
// Where the influences of vertex i lie.
proof fn offsets(i: int, n: int, vc: int)
    requires 0 <= i < vc, n >= 1
    ensures 0 <= i * n, i * n + n == (i + 1) * n, (i + 1) * n <= vc * n, 0 <= i * (n - 1), i * (n - 1) + (n - 1) == (i + 1) * (n - 1), (i + 1) * (n - 1) <= vc * (n - 1)
{
    assert(0 <= i * n && i * n + n == (i + 1) * n && (i + 1) * n <= vc * n && 0 <= i * (n - 1) && i * (n - 1) + (n - 1) == (i + 1) * (n - 1) && (i + 1) * (n - 1) <= vc * (n - 1)) by (nonlinear_arith)
        requires 0 <= i < vc, n >= 1;
}
}
"""
import sys
sel = sys.argv[1:]
fns = [fn(n, p, it) for n in (1, 2, 3, 4, "n") for p, it in (("P", 0), ("PN", 0), ("PNT", 0), ("PN", 1), ("PNT", 1)) if not sel or f"{n}{p}{it}" in sel]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "verus", "skinning.rs"), "w") as f:
    f.write(HEAD + "".join(fns) + RUN + "}\n" + TAIL)
