// C12, C19: skinning, over the real numbers (written by tools/gen_skin.py).
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
//@include simd.rs
//@include glam.rs
verus! {
use sd::*;
use gl::*;
broadcast use {sd::ops, sd::fof, gl::mat_add_ax};
global size_of usize == 8;
//@include bufs.rs
//@real

fn max_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }

//@item src/skinning_job.rs struct SkinningJob
//@sub (?m)^(\s+)(\w+): (Option|usize) ==> \1pub \2: \3
//@sub  = Rc<RefCell<Vec<\w+>>> ==>
//@end

// The first j of the influences of a vertex: sum of the weights, and entry c of the weighted sum of the matrices.
pub open spec fn wsum(w: Seq<F>, wo: int, j: int) -> real decreases j {
    if j <= 0 { 0real } else { wsum(w, wo, j - 1) + w[wo + j - 1].v() }
}
pub open spec fn psum(ms: Seq<Mat4>, idx: Seq<u16>, w: Seq<F>, io: int, wo: int, j: int, c: int) -> real decreases j {
    if j <= 0 { 0real } else { psum(ms, idx, w, io, wo, j - 1, c) + ms[idx[io + j - 1] as int].e(c) * w[wo + j - 1].v() }
}
// Entry c of the matrix of vertex i with n influences: the last weight is one minus the others.
pub open spec fn skin(ms: Seq<Mat4>, idx: Seq<u16>, w: Seq<F>, n: int, i: int, c: int) -> real {
    psum(ms, idx, w, i * n, i * (n - 1), n - 1, c) + ms[idx[i * n + n - 1] as int].e(c) * (1real - wsum(w, i * (n - 1), n - 1))
}
#[verifier::opaque]
pub open spec fn is_point(r: Vec3, p: Vec3, ms: Seq<Mat4>, idx: Seq<u16>, w: Seq<F>, n: int, i: int) -> bool {
    applied(r, skin(ms, idx, w, n, i, 0), skin(ms, idx, w, n, i, 1), skin(ms, idx, w, n, i, 2), skin(ms, idx, w, n, i, 4), skin(ms, idx, w, n, i, 5), skin(ms, idx, w, n, i, 6), skin(ms, idx, w, n, i, 8), skin(ms, idx, w, n, i, 9), skin(ms, idx, w, n, i, 10), skin(ms, idx, w, n, i, 12), skin(ms, idx, w, n, i, 13), skin(ms, idx, w, n, i, 14), p)
}
#[verifier::opaque]
pub open spec fn is_dir(r: Vec3, p: Vec3, ms: Seq<Mat4>, idx: Seq<u16>, w: Seq<F>, n: int, i: int) -> bool {
    applied(r, skin(ms, idx, w, n, i, 0), skin(ms, idx, w, n, i, 1), skin(ms, idx, w, n, i, 2), skin(ms, idx, w, n, i, 4), skin(ms, idx, w, n, i, 5), skin(ms, idx, w, n, i, 6), skin(ms, idx, w, n, i, 8), skin(ms, idx, w, n, i, 9), skin(ms, idx, w, n, i, 10), 0real, 0real, 0real, p)
}
pub open spec fn ready<T, B: OzzBuf<T>>(b: Option<B>, size: int) -> bool { b.is_some() && !b->0.poisoned() && b->0.content().len() >= size }
// there and, unless its lock is poisoned, long enough
pub open spec fn fits<T, B: OzzBuf<T>>(b: Option<B>, size: int) -> bool { b.is_some() && (b->0.poisoned() || b->0.content().len() >= size) }
pub open spec fn same<T, B: OzzBuf<T>>(a: Option<B>, b: Option<B>) -> bool {
    a.is_some() == b.is_some() && (a.is_some() ==> a->0.content() == b->0.content() && a->0.poisoned() == b->0.poisoned())
}
// Every joint index of the vertices has a matrix.
pub open spec fn indexed(idx: Seq<u16>, count: int, len: int) -> bool { forall|k: int| 0 <= k < count ==> (#[trigger] idx[k]) < len }

//@fn src/skinning_job.rs unpack_buf
//@sub B::Buf<'_> ==> &[T]
//@sub where(.|\n)* ==>
//@sub <T, B> ==> <T, B: OzzBuf<T>>
//@ret r
//@spec
    ensures match r {
        Ok(s) => ready::<T, B>(*ozz_buf, size as int) && s@ == ozz_buf->0.content() && s@.len() < usize::MAX,
        Err(e) => !ready::<T, B>(*ozz_buf, size as int) && e == (if ozz_buf.is_some() && ozz_buf->0.poisoned() { OzzError::LockPoison } else { OzzError::InvalidJob }),
    }
//@end
//@fn src/skinning_job.rs unpack_mut_buf
//@sub B::MutBuf<'_> ==> &mut [T]
//@sub where(.|\n)* ==>
//@sub <T, B> ==> <T, B: OzzMutBuf<T>>
//@ret r
//@spec
    ensures
        final(ozz_buf).is_some() == old(ozz_buf).is_some(),
        old(ozz_buf).is_some() ==> final(ozz_buf)->0.poisoned() == old(ozz_buf)->0.poisoned(),
        match r {
            Ok(s) => ready::<T, B>(*old(ozz_buf), size as int) && s@ == old(ozz_buf)->0.content() && final(s)@ == final(ozz_buf)->0.content(),
            Err(e) => !ready::<T, B>(*old(ozz_buf), size as int) && same::<T, B>(*old(ozz_buf), *final(ozz_buf))
                && e == (if old(ozz_buf).is_some() && old(ozz_buf)->0.poisoned() { OzzError::LockPoison } else { OzzError::InvalidJob }),
        }
//@end
//@fn src/skinning_job.rs mat4_col_mul
//@ret r
//@spec
    ensures forall|c: int| 0 <= c < 16 ==> #[trigger] r.e(c) == m.e(c) * v.e(c % 4)
//@end

impl<JM: OzzBuf<Mat4>, JI: OzzBuf<u16>, JW: OzzBuf<F>, I: OzzBuf<Vec3>, O: OzzMutBuf<Vec3>> SkinningJob<JM, JI, JW, I, O> {
    pub open spec fn ms(&self) -> Seq<Mat4> { self.joint_matrices->0.content() }
    pub open spec fn its(&self) -> Seq<Mat4> { self.joint_it_matrices->0.content() }
    pub open spec fn idx(&self) -> Seq<u16> { self.joint_indices->0.content() }
    pub open spec fn wts(&self) -> Seq<F> { self.joint_weights->0.content() }
    pub open spec fn points_done(&self, o: Vec3, n: int, i: int) -> bool { is_point(o, self.in_positions->0.content()[i], self.ms(), self.idx(), self.wts(), n, i) }
    pub open spec fn normals_done(&self, o: Vec3, it: bool, n: int, i: int) -> bool {
        is_dir(o, self.in_normals->0.content()[i], if it { self.its() } else { self.ms() }, self.idx(), self.wts(), n, i)
    }
    pub open spec fn tangents_done(&self, o: Vec3, it: bool, n: int, i: int) -> bool {
        is_dir(o, self.in_tangents->0.content()[i], if it { self.its() } else { self.ms() }, self.idx(), self.wts(), n, i)
    }
    pub open spec fn inputs_kept(&self, o: Self) -> bool {
        &&& self.vertex_count == o.vertex_count && self.influences_count == o.influences_count
        &&& self.joint_matrices == o.joint_matrices && self.joint_it_matrices == o.joint_it_matrices
        &&& self.joint_indices == o.joint_indices && self.joint_weights == o.joint_weights
        &&& self.in_positions == o.in_positions && self.in_normals == o.in_normals && self.in_tangents == o.in_tangents
    }
    // Everything the function with n influences reads and writes is there and long enough.
    pub open spec fn gates(&self, n: int, it: bool, normals: bool, tangents: bool) -> bool {
        let vc = self.vertex_count as int;
        &&& ready::<Mat4, JM>(self.joint_matrices, 0) && (it ==> ready::<Mat4, JM>(self.joint_it_matrices, 0))
        &&& ready::<u16, JI>(self.joint_indices, vc * n) && (n > 1 ==> ready::<F, JW>(self.joint_weights, vc * (n - 1)))
        &&& ready::<Vec3, I>(self.in_positions, vc) && ready::<Vec3, O>(self.out_positions, vc)
        &&& normals ==> ready::<Vec3, I>(self.in_normals, vc) && ready::<Vec3, O>(self.out_normals, vc)
        &&& tangents ==> ready::<Vec3, I>(self.in_tangents, vc) && ready::<Vec3, O>(self.out_tangents, vc)
    }
    // Nothing but a poisoned lock is wrong with the buffers, if anything.
    pub open spec fn fitting(&self, n: int, it: bool, normals: bool, tangents: bool) -> bool {
        let vc = self.vertex_count as int;
        &&& fits::<Mat4, JM>(self.joint_matrices, 0) && (it ==> fits::<Mat4, JM>(self.joint_it_matrices, 0))
        &&& fits::<u16, JI>(self.joint_indices, vc * n) && (n > 1 ==> fits::<F, JW>(self.joint_weights, vc * (n - 1)))
        &&& fits::<Vec3, I>(self.in_positions, vc) && fits::<Vec3, O>(self.out_positions, vc)
        &&& normals ==> fits::<Vec3, I>(self.in_normals, vc) && fits::<Vec3, O>(self.out_normals, vc)
        &&& tangents ==> fits::<Vec3, I>(self.in_tangents, vc) && fits::<Vec3, O>(self.out_tangents, vc)
    }
    pub open spec fn indices_ok(&self, n: int, it: bool) -> bool {
        indexed(self.idx(), self.vertex_count * n, self.ms().len() as int) && (it ==> indexed(self.idx(), self.vertex_count * n, self.its().len() as int))
    }
    pub open spec fn outputs_kept(&self, o: Self) -> bool {
        same::<Vec3, O>(self.out_positions, o.out_positions) && same::<Vec3, O>(self.out_normals, o.out_normals) && same::<Vec3, O>(self.out_tangents, o.out_tangents)
    }
    pub open spec fn written(&self, o: Self, n: int, it: bool, normals: bool, tangents: bool) -> bool {
        let vc = self.vertex_count as int;
        let p = o.out_positions->0.content();
        let nn = o.out_normals->0.content();
        let tt = o.out_tangents->0.content();
        &&& o.out_positions.is_some() && p.len() == self.out_positions->0.content().len()
        &&& forall|i: int| 0 <= i < vc ==> self.points_done(#[trigger] p[i], n, i)
        &&& forall|i: int| vc <= i < p.len() ==> #[trigger] p[i] == self.out_positions->0.content()[i]
        &&& if normals {
            &&& o.out_normals.is_some() && nn.len() == self.out_normals->0.content().len()
            &&& forall|i: int| 0 <= i < vc ==> self.normals_done(#[trigger] nn[i], it, n, i)
            &&& forall|i: int| vc <= i < nn.len() ==> #[trigger] nn[i] == self.out_normals->0.content()[i]
        } else { same::<Vec3, O>(self.out_normals, o.out_normals) }
        &&& if tangents {
            &&& o.out_tangents.is_some() && tt.len() == self.out_tangents->0.content().len()
            &&& forall|i: int| 0 <= i < vc ==> self.tangents_done(#[trigger] tt[i], it, n, i)
            &&& forall|i: int| vc <= i < tt.len() ==> #[trigger] tt[i] == self.out_tangents->0.content()[i]
        } else { same::<Vec3, O>(self.out_tangents, o.out_tangents) }
    }
    // The job's contract for one function of the dispatch.
    pub open spec fn skinned(&self, o: Self, r: Result<(), OzzError>, n: int, it: bool, normals: bool, tangents: bool) -> bool {
        &&& self.inputs_kept(o)
        &&& r.is_ok() == (self.gates(n, it, normals, tangents) && self.indices_ok(n, it))
        &&& r.is_ok() ==> self.written(o, n, it, normals, tangents)
        &&& r.is_err() && self.gates(n, it, normals, tangents) ==> r->Err_0 == OzzError::InvalidIndex
        &&& !self.gates(n, it, normals, tangents) ==> self.outputs_kept(o) && (r->Err_0 == OzzError::InvalidJob || r->Err_0 == OzzError::LockPoison)
        &&& !self.gates(n, it, normals, tangents) && self.fitting(n, it, normals, tangents) ==> r->Err_0 == OzzError::LockPoison
    }
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_1_p
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    ensures old(self).skinned(*final(self), r, 1, false, false, false)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = 1; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@stop 1
    proof {
        one(job.ms(), job.idx(), job.wts(), i as int);
        point_is(out_positions@[i as int], in_positions@[i as int], job.ms()[job.idx()[i as int] as int], job.ms(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_1_pn
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    ensures old(self).skinned(*final(self), r, 1, false, true, false)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = 1; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
    let ghost out_normals0 = out_normals@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
        out_normals@.len() == out_normals0.len(), forall|k: int| 0 <= k < i ==> job.normals_done(#[trigger] out_normals@[k], false, gn, k),
        forall|k: int| i <= k < out_normals@.len() ==> #[trigger] out_normals@[k] == out_normals0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@stop 1
    proof {
        one(job.ms(), job.idx(), job.wts(), i as int);
        point_is(out_positions@[i as int], in_positions@[i as int], job.ms()[job.idx()[i as int] as int], job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_normals@[i as int], in_normals@[i as int], job.ms()[job.idx()[i as int] as int], job.ms(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_1_pnt
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    ensures old(self).skinned(*final(self), r, 1, false, true, true)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = 1; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
    let ghost out_normals0 = out_normals@;
    let ghost out_tangents0 = out_tangents@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
        out_normals@.len() == out_normals0.len(), forall|k: int| 0 <= k < i ==> job.normals_done(#[trigger] out_normals@[k], false, gn, k),
        forall|k: int| i <= k < out_normals@.len() ==> #[trigger] out_normals@[k] == out_normals0[k],
        out_tangents@.len() == out_tangents0.len(), forall|k: int| 0 <= k < i ==> job.tangents_done(#[trigger] out_tangents@[k], false, gn, k),
        forall|k: int| i <= k < out_tangents@.len() ==> #[trigger] out_tangents@[k] == out_tangents0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@stop 1
    proof {
        one(job.ms(), job.idx(), job.wts(), i as int);
        point_is(out_positions@[i as int], in_positions@[i as int], job.ms()[job.idx()[i as int] as int], job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_normals@[i as int], in_normals@[i as int], job.ms()[job.idx()[i as int] as int], job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_tangents@[i as int], in_tangents@[i as int], job.ms()[job.idx()[i as int] as int], job.ms(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_1_pn_it
//@ret r
//@spec
    ensures old(self).skinned(*final(self), r, 1, true, true, false)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = 1; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
    let ghost out_normals0 = out_normals@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        indexed(job.idx(), i * gn, job.its().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
        out_normals@.len() == out_normals0.len(), forall|k: int| 0 <= k < i ==> job.normals_done(#[trigger] out_normals@[k], true, gn, k),
        forall|k: int| i <= k < out_normals@.len() ==> #[trigger] out_normals@[k] == out_normals0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@stop 1
    proof {
        one(job.ms(), job.idx(), job.wts(), i as int);
        one(job.its(), job.idx(), job.wts(), i as int);
        point_is(out_positions@[i as int], in_positions@[i as int], job.ms()[job.idx()[i as int] as int], job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_normals@[i as int], in_normals@[i as int], job.its()[job.idx()[i as int] as int], job.its(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_1_pnt_it
//@ret r
//@spec
    ensures old(self).skinned(*final(self), r, 1, true, true, true)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = 1; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
    let ghost out_normals0 = out_normals@;
    let ghost out_tangents0 = out_tangents@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        indexed(job.idx(), i * gn, job.its().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
        out_normals@.len() == out_normals0.len(), forall|k: int| 0 <= k < i ==> job.normals_done(#[trigger] out_normals@[k], true, gn, k),
        forall|k: int| i <= k < out_normals@.len() ==> #[trigger] out_normals@[k] == out_normals0[k],
        out_tangents@.len() == out_tangents0.len(), forall|k: int| 0 <= k < i ==> job.tangents_done(#[trigger] out_tangents@[k], true, gn, k),
        forall|k: int| i <= k < out_tangents@.len() ==> #[trigger] out_tangents@[k] == out_tangents0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@stop 1
    proof {
        one(job.ms(), job.idx(), job.wts(), i as int);
        one(job.its(), job.idx(), job.wts(), i as int);
        point_is(out_positions@[i as int], in_positions@[i as int], job.ms()[job.idx()[i as int] as int], job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_normals@[i as int], in_normals@[i as int], job.its()[job.idx()[i as int] as int], job.its(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_tangents@[i as int], in_tangents@[i as int], job.its()[job.idx()[i as int] as int], job.its(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_2_p
//@sub \b(Vec4)::(ONE)\b ==> \1::\2()
//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    ensures old(self).skinned(*final(self), r, 2, false, false, false)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = 2; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@loop 2 for j in 1..max_usize(2 - 1, 1)
    invariant
        indexed(job.idx(), i * gn + j, job.ms().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),
        out_positions@ == before_out_positions,
//@pre 2
    let ghost before_out_positions = out_positions@;
    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }
//@stop 1
    proof {
        point_is(out_positions@[i as int], in_positions@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_2_pn
//@sub \b(Vec4)::(ONE)\b ==> \1::\2()
//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    ensures old(self).skinned(*final(self), r, 2, false, true, false)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = 2; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
    let ghost out_normals0 = out_normals@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
        out_normals@.len() == out_normals0.len(), forall|k: int| 0 <= k < i ==> job.normals_done(#[trigger] out_normals@[k], false, gn, k),
        forall|k: int| i <= k < out_normals@.len() ==> #[trigger] out_normals@[k] == out_normals0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@loop 2 for j in 1..max_usize(2 - 1, 1)
    invariant
        indexed(job.idx(), i * gn + j, job.ms().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),
        out_positions@ == before_out_positions,
        out_normals@ == before_out_normals,
//@pre 2
    let ghost before_out_positions = out_positions@;
    let ghost before_out_normals = out_normals@;
    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }
//@stop 1
    proof {
        point_is(out_positions@[i as int], in_positions@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_normals@[i as int], in_normals@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_2_pnt
//@sub \b(Vec4)::(ONE)\b ==> \1::\2()
//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    ensures old(self).skinned(*final(self), r, 2, false, true, true)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = 2; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
    let ghost out_normals0 = out_normals@;
    let ghost out_tangents0 = out_tangents@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
        out_normals@.len() == out_normals0.len(), forall|k: int| 0 <= k < i ==> job.normals_done(#[trigger] out_normals@[k], false, gn, k),
        forall|k: int| i <= k < out_normals@.len() ==> #[trigger] out_normals@[k] == out_normals0[k],
        out_tangents@.len() == out_tangents0.len(), forall|k: int| 0 <= k < i ==> job.tangents_done(#[trigger] out_tangents@[k], false, gn, k),
        forall|k: int| i <= k < out_tangents@.len() ==> #[trigger] out_tangents@[k] == out_tangents0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@loop 2 for j in 1..max_usize(2 - 1, 1)
    invariant
        indexed(job.idx(), i * gn + j, job.ms().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),
        out_positions@ == before_out_positions,
        out_normals@ == before_out_normals,
        out_tangents@ == before_out_tangents,
//@pre 2
    let ghost before_out_positions = out_positions@;
    let ghost before_out_normals = out_normals@;
    let ghost before_out_tangents = out_tangents@;
    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }
//@stop 1
    proof {
        point_is(out_positions@[i as int], in_positions@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_normals@[i as int], in_normals@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_tangents@[i as int], in_tangents@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_2_pn_it
//@sub \b(Vec4)::(ONE)\b ==> \1::\2()
//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    ensures old(self).skinned(*final(self), r, 2, true, true, false)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = 2; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
    let ghost out_normals0 = out_normals@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        indexed(job.idx(), i * gn, job.its().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
        out_normals@.len() == out_normals0.len(), forall|k: int| 0 <= k < i ==> job.normals_done(#[trigger] out_normals@[k], true, gn, k),
        forall|k: int| i <= k < out_normals@.len() ==> #[trigger] out_normals@[k] == out_normals0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@loop 2 for j in 1..max_usize(2 - 1, 1)
    invariant
        indexed(job.idx(), i * gn + j, job.ms().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        indexed(job.idx(), i * gn + j, job.its().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform_it.e(c) == psum(job.its(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),
        out_positions@ == before_out_positions,
        out_normals@ == before_out_normals,
//@pre 2
    let ghost before_out_positions = out_positions@;
    let ghost before_out_normals = out_normals@;
    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }
//@stop 1
    proof {
        point_is(out_positions@[i as int], in_positions@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_normals@[i as int], in_normals@[i as int], transform_it, job.its(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_2_pnt_it
//@sub \b(Vec4)::(ONE)\b ==> \1::\2()
//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    ensures old(self).skinned(*final(self), r, 2, true, true, true)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = 2; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
    let ghost out_normals0 = out_normals@;
    let ghost out_tangents0 = out_tangents@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        indexed(job.idx(), i * gn, job.its().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
        out_normals@.len() == out_normals0.len(), forall|k: int| 0 <= k < i ==> job.normals_done(#[trigger] out_normals@[k], true, gn, k),
        forall|k: int| i <= k < out_normals@.len() ==> #[trigger] out_normals@[k] == out_normals0[k],
        out_tangents@.len() == out_tangents0.len(), forall|k: int| 0 <= k < i ==> job.tangents_done(#[trigger] out_tangents@[k], true, gn, k),
        forall|k: int| i <= k < out_tangents@.len() ==> #[trigger] out_tangents@[k] == out_tangents0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@loop 2 for j in 1..max_usize(2 - 1, 1)
    invariant
        indexed(job.idx(), i * gn + j, job.ms().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        indexed(job.idx(), i * gn + j, job.its().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform_it.e(c) == psum(job.its(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),
        out_positions@ == before_out_positions,
        out_normals@ == before_out_normals,
        out_tangents@ == before_out_tangents,
//@pre 2
    let ghost before_out_positions = out_positions@;
    let ghost before_out_normals = out_normals@;
    let ghost before_out_tangents = out_tangents@;
    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }
//@stop 1
    proof {
        point_is(out_positions@[i as int], in_positions@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_normals@[i as int], in_normals@[i as int], transform_it, job.its(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_tangents@[i as int], in_tangents@[i as int], transform_it, job.its(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_3_p
//@sub \b(Vec4)::(ONE)\b ==> \1::\2()
//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    ensures old(self).skinned(*final(self), r, 3, false, false, false)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = 3; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@loop 2 for j in 1..max_usize(3 - 1, 1)
    invariant
        indexed(job.idx(), i * gn + j, job.ms().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),
        out_positions@ == before_out_positions,
//@pre 2
    let ghost before_out_positions = out_positions@;
    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }
//@stop 1
    proof {
        point_is(out_positions@[i as int], in_positions@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_3_pn
//@sub \b(Vec4)::(ONE)\b ==> \1::\2()
//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    ensures old(self).skinned(*final(self), r, 3, false, true, false)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = 3; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
    let ghost out_normals0 = out_normals@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
        out_normals@.len() == out_normals0.len(), forall|k: int| 0 <= k < i ==> job.normals_done(#[trigger] out_normals@[k], false, gn, k),
        forall|k: int| i <= k < out_normals@.len() ==> #[trigger] out_normals@[k] == out_normals0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@loop 2 for j in 1..max_usize(3 - 1, 1)
    invariant
        indexed(job.idx(), i * gn + j, job.ms().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),
        out_positions@ == before_out_positions,
        out_normals@ == before_out_normals,
//@pre 2
    let ghost before_out_positions = out_positions@;
    let ghost before_out_normals = out_normals@;
    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }
//@stop 1
    proof {
        point_is(out_positions@[i as int], in_positions@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_normals@[i as int], in_normals@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_3_pnt
//@sub \b(Vec4)::(ONE)\b ==> \1::\2()
//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    ensures old(self).skinned(*final(self), r, 3, false, true, true)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = 3; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
    let ghost out_normals0 = out_normals@;
    let ghost out_tangents0 = out_tangents@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
        out_normals@.len() == out_normals0.len(), forall|k: int| 0 <= k < i ==> job.normals_done(#[trigger] out_normals@[k], false, gn, k),
        forall|k: int| i <= k < out_normals@.len() ==> #[trigger] out_normals@[k] == out_normals0[k],
        out_tangents@.len() == out_tangents0.len(), forall|k: int| 0 <= k < i ==> job.tangents_done(#[trigger] out_tangents@[k], false, gn, k),
        forall|k: int| i <= k < out_tangents@.len() ==> #[trigger] out_tangents@[k] == out_tangents0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@loop 2 for j in 1..max_usize(3 - 1, 1)
    invariant
        indexed(job.idx(), i * gn + j, job.ms().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),
        out_positions@ == before_out_positions,
        out_normals@ == before_out_normals,
        out_tangents@ == before_out_tangents,
//@pre 2
    let ghost before_out_positions = out_positions@;
    let ghost before_out_normals = out_normals@;
    let ghost before_out_tangents = out_tangents@;
    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }
//@stop 1
    proof {
        point_is(out_positions@[i as int], in_positions@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_normals@[i as int], in_normals@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_tangents@[i as int], in_tangents@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_3_pn_it
//@sub \b(Vec4)::(ONE)\b ==> \1::\2()
//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    ensures old(self).skinned(*final(self), r, 3, true, true, false)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = 3; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
    let ghost out_normals0 = out_normals@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        indexed(job.idx(), i * gn, job.its().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
        out_normals@.len() == out_normals0.len(), forall|k: int| 0 <= k < i ==> job.normals_done(#[trigger] out_normals@[k], true, gn, k),
        forall|k: int| i <= k < out_normals@.len() ==> #[trigger] out_normals@[k] == out_normals0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@loop 2 for j in 1..max_usize(3 - 1, 1)
    invariant
        indexed(job.idx(), i * gn + j, job.ms().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        indexed(job.idx(), i * gn + j, job.its().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform_it.e(c) == psum(job.its(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),
        out_positions@ == before_out_positions,
        out_normals@ == before_out_normals,
//@pre 2
    let ghost before_out_positions = out_positions@;
    let ghost before_out_normals = out_normals@;
    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }
//@stop 1
    proof {
        point_is(out_positions@[i as int], in_positions@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_normals@[i as int], in_normals@[i as int], transform_it, job.its(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_3_pnt_it
//@sub \b(Vec4)::(ONE)\b ==> \1::\2()
//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    ensures old(self).skinned(*final(self), r, 3, true, true, true)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = 3; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
    let ghost out_normals0 = out_normals@;
    let ghost out_tangents0 = out_tangents@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        indexed(job.idx(), i * gn, job.its().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
        out_normals@.len() == out_normals0.len(), forall|k: int| 0 <= k < i ==> job.normals_done(#[trigger] out_normals@[k], true, gn, k),
        forall|k: int| i <= k < out_normals@.len() ==> #[trigger] out_normals@[k] == out_normals0[k],
        out_tangents@.len() == out_tangents0.len(), forall|k: int| 0 <= k < i ==> job.tangents_done(#[trigger] out_tangents@[k], true, gn, k),
        forall|k: int| i <= k < out_tangents@.len() ==> #[trigger] out_tangents@[k] == out_tangents0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@loop 2 for j in 1..max_usize(3 - 1, 1)
    invariant
        indexed(job.idx(), i * gn + j, job.ms().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        indexed(job.idx(), i * gn + j, job.its().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform_it.e(c) == psum(job.its(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),
        out_positions@ == before_out_positions,
        out_normals@ == before_out_normals,
        out_tangents@ == before_out_tangents,
//@pre 2
    let ghost before_out_positions = out_positions@;
    let ghost before_out_normals = out_normals@;
    let ghost before_out_tangents = out_tangents@;
    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }
//@stop 1
    proof {
        point_is(out_positions@[i as int], in_positions@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_normals@[i as int], in_normals@[i as int], transform_it, job.its(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_tangents@[i as int], in_tangents@[i as int], transform_it, job.its(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_4_p
//@sub \b(Vec4)::(ONE)\b ==> \1::\2()
//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    ensures old(self).skinned(*final(self), r, 4, false, false, false)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = 4; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@loop 2 for j in 1..max_usize(4 - 1, 1)
    invariant
        indexed(job.idx(), i * gn + j, job.ms().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),
        out_positions@ == before_out_positions,
//@pre 2
    let ghost before_out_positions = out_positions@;
    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }
//@stop 1
    proof {
        point_is(out_positions@[i as int], in_positions@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_4_pn
//@sub \b(Vec4)::(ONE)\b ==> \1::\2()
//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    ensures old(self).skinned(*final(self), r, 4, false, true, false)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = 4; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
    let ghost out_normals0 = out_normals@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
        out_normals@.len() == out_normals0.len(), forall|k: int| 0 <= k < i ==> job.normals_done(#[trigger] out_normals@[k], false, gn, k),
        forall|k: int| i <= k < out_normals@.len() ==> #[trigger] out_normals@[k] == out_normals0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@loop 2 for j in 1..max_usize(4 - 1, 1)
    invariant
        indexed(job.idx(), i * gn + j, job.ms().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),
        out_positions@ == before_out_positions,
        out_normals@ == before_out_normals,
//@pre 2
    let ghost before_out_positions = out_positions@;
    let ghost before_out_normals = out_normals@;
    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }
//@stop 1
    proof {
        point_is(out_positions@[i as int], in_positions@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_normals@[i as int], in_normals@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_4_pnt
//@sub \b(Vec4)::(ONE)\b ==> \1::\2()
//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    ensures old(self).skinned(*final(self), r, 4, false, true, true)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = 4; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
    let ghost out_normals0 = out_normals@;
    let ghost out_tangents0 = out_tangents@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
        out_normals@.len() == out_normals0.len(), forall|k: int| 0 <= k < i ==> job.normals_done(#[trigger] out_normals@[k], false, gn, k),
        forall|k: int| i <= k < out_normals@.len() ==> #[trigger] out_normals@[k] == out_normals0[k],
        out_tangents@.len() == out_tangents0.len(), forall|k: int| 0 <= k < i ==> job.tangents_done(#[trigger] out_tangents@[k], false, gn, k),
        forall|k: int| i <= k < out_tangents@.len() ==> #[trigger] out_tangents@[k] == out_tangents0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@loop 2 for j in 1..max_usize(4 - 1, 1)
    invariant
        indexed(job.idx(), i * gn + j, job.ms().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),
        out_positions@ == before_out_positions,
        out_normals@ == before_out_normals,
        out_tangents@ == before_out_tangents,
//@pre 2
    let ghost before_out_positions = out_positions@;
    let ghost before_out_normals = out_normals@;
    let ghost before_out_tangents = out_tangents@;
    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }
//@stop 1
    proof {
        point_is(out_positions@[i as int], in_positions@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_normals@[i as int], in_normals@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_tangents@[i as int], in_tangents@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_4_pn_it
//@sub \b(Vec4)::(ONE)\b ==> \1::\2()
//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    ensures old(self).skinned(*final(self), r, 4, true, true, false)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = 4; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
    let ghost out_normals0 = out_normals@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        indexed(job.idx(), i * gn, job.its().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
        out_normals@.len() == out_normals0.len(), forall|k: int| 0 <= k < i ==> job.normals_done(#[trigger] out_normals@[k], true, gn, k),
        forall|k: int| i <= k < out_normals@.len() ==> #[trigger] out_normals@[k] == out_normals0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@loop 2 for j in 1..max_usize(4 - 1, 1)
    invariant
        indexed(job.idx(), i * gn + j, job.ms().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        indexed(job.idx(), i * gn + j, job.its().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform_it.e(c) == psum(job.its(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),
        out_positions@ == before_out_positions,
        out_normals@ == before_out_normals,
//@pre 2
    let ghost before_out_positions = out_positions@;
    let ghost before_out_normals = out_normals@;
    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }
//@stop 1
    proof {
        point_is(out_positions@[i as int], in_positions@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_normals@[i as int], in_normals@[i as int], transform_it, job.its(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_4_pnt_it
//@sub \b(Vec4)::(ONE)\b ==> \1::\2()
//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    ensures old(self).skinned(*final(self), r, 4, true, true, true)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = 4; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
    let ghost out_normals0 = out_normals@;
    let ghost out_tangents0 = out_tangents@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        indexed(job.idx(), i * gn, job.its().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
        out_normals@.len() == out_normals0.len(), forall|k: int| 0 <= k < i ==> job.normals_done(#[trigger] out_normals@[k], true, gn, k),
        forall|k: int| i <= k < out_normals@.len() ==> #[trigger] out_normals@[k] == out_normals0[k],
        out_tangents@.len() == out_tangents0.len(), forall|k: int| 0 <= k < i ==> job.tangents_done(#[trigger] out_tangents@[k], true, gn, k),
        forall|k: int| i <= k < out_tangents@.len() ==> #[trigger] out_tangents@[k] == out_tangents0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@loop 2 for j in 1..max_usize(4 - 1, 1)
    invariant
        indexed(job.idx(), i * gn + j, job.ms().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        indexed(job.idx(), i * gn + j, job.its().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform_it.e(c) == psum(job.its(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),
        out_positions@ == before_out_positions,
        out_normals@ == before_out_normals,
        out_tangents@ == before_out_tangents,
//@pre 2
    let ghost before_out_positions = out_positions@;
    let ghost before_out_normals = out_normals@;
    let ghost before_out_tangents = out_tangents@;
    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }
//@stop 1
    proof {
        point_is(out_positions@[i as int], in_positions@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_normals@[i as int], in_normals@[i as int], transform_it, job.its(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_tangents@[i as int], in_tangents@[i as int], transform_it, job.its(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_n_p
//@sub \b(Vec4)::(ONE)\b ==> \1::\2()
//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    requires old(self).influences_count >= 2
    ensures old(self).skinned(*final(self), r, old(self).influences_count as int, false, false, false)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = n as int; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@loop 2 for j in 1..max_usize(n - 1, 1)
    invariant
        indexed(job.idx(), i * gn + j, job.ms().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),
        out_positions@ == before_out_positions,
//@pre 2
    let ghost before_out_positions = out_positions@;
    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }
//@stop 1
    proof {
        point_is(out_positions@[i as int], in_positions@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_n_pn
//@sub \b(Vec4)::(ONE)\b ==> \1::\2()
//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    requires old(self).influences_count >= 2
    ensures old(self).skinned(*final(self), r, old(self).influences_count as int, false, true, false)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = n as int; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
    let ghost out_normals0 = out_normals@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
        out_normals@.len() == out_normals0.len(), forall|k: int| 0 <= k < i ==> job.normals_done(#[trigger] out_normals@[k], false, gn, k),
        forall|k: int| i <= k < out_normals@.len() ==> #[trigger] out_normals@[k] == out_normals0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@loop 2 for j in 1..max_usize(n - 1, 1)
    invariant
        indexed(job.idx(), i * gn + j, job.ms().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),
        out_positions@ == before_out_positions,
        out_normals@ == before_out_normals,
//@pre 2
    let ghost before_out_positions = out_positions@;
    let ghost before_out_normals = out_normals@;
    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }
//@stop 1
    proof {
        point_is(out_positions@[i as int], in_positions@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_normals@[i as int], in_normals@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_n_pnt
//@sub \b(Vec4)::(ONE)\b ==> \1::\2()
//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    requires old(self).influences_count >= 2
    ensures old(self).skinned(*final(self), r, old(self).influences_count as int, false, true, true)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = n as int; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
    let ghost out_normals0 = out_normals@;
    let ghost out_tangents0 = out_tangents@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
        out_normals@.len() == out_normals0.len(), forall|k: int| 0 <= k < i ==> job.normals_done(#[trigger] out_normals@[k], false, gn, k),
        forall|k: int| i <= k < out_normals@.len() ==> #[trigger] out_normals@[k] == out_normals0[k],
        out_tangents@.len() == out_tangents0.len(), forall|k: int| 0 <= k < i ==> job.tangents_done(#[trigger] out_tangents@[k], false, gn, k),
        forall|k: int| i <= k < out_tangents@.len() ==> #[trigger] out_tangents@[k] == out_tangents0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@loop 2 for j in 1..max_usize(n - 1, 1)
    invariant
        indexed(job.idx(), i * gn + j, job.ms().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),
        out_positions@ == before_out_positions,
        out_normals@ == before_out_normals,
        out_tangents@ == before_out_tangents,
//@pre 2
    let ghost before_out_positions = out_positions@;
    let ghost before_out_normals = out_normals@;
    let ghost before_out_tangents = out_tangents@;
    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }
//@stop 1
    proof {
        point_is(out_positions@[i as int], in_positions@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_normals@[i as int], in_normals@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_tangents@[i as int], in_tangents@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_n_pn_it
//@sub \b(Vec4)::(ONE)\b ==> \1::\2()
//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    requires old(self).influences_count >= 2
    ensures old(self).skinned(*final(self), r, old(self).influences_count as int, true, true, false)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = n as int; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
    let ghost out_normals0 = out_normals@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        indexed(job.idx(), i * gn, job.its().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
        out_normals@.len() == out_normals0.len(), forall|k: int| 0 <= k < i ==> job.normals_done(#[trigger] out_normals@[k], true, gn, k),
        forall|k: int| i <= k < out_normals@.len() ==> #[trigger] out_normals@[k] == out_normals0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@loop 2 for j in 1..max_usize(n - 1, 1)
    invariant
        indexed(job.idx(), i * gn + j, job.ms().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        indexed(job.idx(), i * gn + j, job.its().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform_it.e(c) == psum(job.its(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),
        out_positions@ == before_out_positions,
        out_normals@ == before_out_normals,
//@pre 2
    let ghost before_out_positions = out_positions@;
    let ghost before_out_normals = out_normals@;
    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }
//@stop 1
    proof {
        point_is(out_positions@[i as int], in_positions@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_normals@[i as int], in_normals@[i as int], transform_it, job.its(), job.idx(), job.wts(), gn, i as int);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src/skinning_job.rs! SkinningJob::skinning_n_pnt_it
//@sub \b(Vec4)::(ONE)\b ==> \1::\2()
//@sub \(([^()]*)\)\.max\(1\) ==> max_usize(\1, 1)
//@sub ;(\s*;)+ ==> ;
//@ret r
//@spec
    requires old(self).influences_count >= 2
    ensures old(self).skinned(*final(self), r, old(self).influences_count as int, true, true, true)
//@pre 1
    let ghost job = *old(self); let ghost gn: int = n as int; let ghost vc = self.vertex_count as int;
    assert(0 * gn == 0) by (nonlinear_arith);
    let ghost out_positions0 = out_positions@;
    let ghost out_normals0 = out_normals@;
    let ghost out_tangents0 = out_tangents@;
//@loop 1 for i in 0..self.vertex_count
    invariant
        indexed(job.idx(), i * gn, job.ms().len() as int),
        indexed(job.idx(), i * gn, job.its().len() as int),
        out_positions@.len() == out_positions0.len(), forall|k: int| 0 <= k < i ==> job.points_done(#[trigger] out_positions@[k], gn, k),
        forall|k: int| i <= k < out_positions@.len() ==> #[trigger] out_positions@[k] == out_positions0[k],
        out_normals@.len() == out_normals0.len(), forall|k: int| 0 <= k < i ==> job.normals_done(#[trigger] out_normals@[k], true, gn, k),
        forall|k: int| i <= k < out_normals@.len() ==> #[trigger] out_normals@[k] == out_normals0[k],
        out_tangents@.len() == out_tangents0.len(), forall|k: int| 0 <= k < i ==> job.tangents_done(#[trigger] out_tangents@[k], true, gn, k),
        forall|k: int| i <= k < out_tangents@.len() ==> #[trigger] out_tangents@[k] == out_tangents0[k],
//@start 1
    proof { offsets(i as int, gn, vc); }
//@loop 2 for j in 1..max_usize(n - 1, 1)
    invariant
        indexed(job.idx(), i * gn + j, job.ms().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform.e(c) == psum(job.ms(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        indexed(job.idx(), i * gn + j, job.its().len() as int),
        forall|c: int| 0 <= c < 16 ==> #[trigger] transform_it.e(c) == psum(job.its(), job.idx(), job.wts(), i * gn, i * (gn - 1), j as int, c),
        weight_sum.x.v() == wsum(job.wts(), i * (gn - 1), j as int), weight_sum.y.v() == weight_sum.x.v(), weight_sum.z.v() == weight_sum.x.v(), weight_sum.w.v() == weight_sum.x.v(),
        out_positions@ == before_out_positions,
        out_normals@ == before_out_normals,
        out_tangents@ == before_out_tangents,
//@pre 2
    let ghost before_out_positions = out_positions@;
    let ghost before_out_normals = out_normals@;
    let ghost before_out_tangents = out_tangents@;
    proof { reveal_with_fuel(psum, 2); reveal_with_fuel(wsum, 2); }
//@stop 1
    proof {
        point_is(out_positions@[i as int], in_positions@[i as int], transform, job.ms(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_normals@[i as int], in_normals@[i as int], transform_it, job.its(), job.idx(), job.wts(), gn, i as int);
        dir_is(out_tangents@[i as int], in_tangents@[i as int], transform_it, job.its(), job.idx(), job.wts(), gn, i as int);
    }
//@end

    // What validate promises.
    pub open spec fn valid(&self) -> bool {
        let vc = self.vertex_count as int;
        let n = self.influences_count as int;
        &&& n > 0 && ready::<Mat4, JM>(self.joint_matrices, 1)
        &&& ready::<u16, JI>(self.joint_indices, vc * n) && (n > 1 ==> ready::<F, JW>(self.joint_weights, vc * (n - 1)))
        &&& ready::<Vec3, I>(self.in_positions, vc) && ready::<Vec3, O>(self.out_positions, vc)
        &&& self.in_normals.is_some() ==> ready::<Vec3, I>(self.in_normals, vc) && ready::<Vec3, O>(self.out_normals, vc)
        &&& self.in_tangents.is_some() ==> self.in_normals.is_some() && ready::<Vec3, I>(self.in_tangents, vc) && ready::<Vec3, O>(self.out_tangents, vc)
    }
    pub open spec fn with_it(&self) -> bool { self.in_normals.is_some() && self.joint_it_matrices.is_some() }
//@fn src/skinning_job.rs SkinningJob::run
//@sub \(([^()]*)\)\.min\(4\) ==> min_usize(\1, 4)
//@sub _ => unreachable!\(\) ==> _ => { assert(false); Ok(()) }
//@ret r
//@spec
    ensures ({
        let o = *old(self);
        let n = o.influences_count as int;
        &&& o.inputs_kept(*final(self))
        &&& !o.valid() ==> r.is_err() && o.outputs_kept(*final(self)) && (r->Err_0 == OzzError::InvalidJob || r->Err_0 == OzzError::LockPoison)
        &&& n > 0 && fits::<Mat4, JM>(o.joint_matrices, 1) && (o.in_tangents.is_some() ==> o.in_normals.is_some())
            && o.fitting(n, o.with_it(), o.in_normals.is_some(), o.in_tangents.is_some()) && !o.gates(n, o.with_it(), o.in_normals.is_some(), o.in_tangents.is_some())
            ==> r.is_err() && r->Err_0 == OzzError::LockPoison
        &&& r.is_ok() == (o.valid() && (o.with_it() ==> ready::<Mat4, JM>(o.joint_it_matrices, 0)) && o.indices_ok(n, o.with_it()))
        &&& r.is_ok() ==> o.written(*final(self), n, o.with_it(), o.in_normals.is_some(), o.in_tangents.is_some())
    })
//@end
//@fn src/skinning_job.rs SkinningJob::validate
//@sub ^\s*\(\|\| ==>
//@sub \)\(\)\s*\.unwrap_or\(false\)\s*$ ==>
//@sub -> bool ==> -> Option<bool>
//@sub ok &= ([^;]*); ==> let c = \1; ok = ok && c;
//@ret r
//@spec
    ensures (r == Some(true)) == self.valid()
//@end
}

proof fn point_is(r: Vec3, p: Vec3, m: Mat4, ms: Seq<Mat4>, idx: Seq<u16>, w: Seq<F>, n: int, i: int)
    requires forall|c: int| 0 <= c < 16 ==> #[trigger] m.e(c) == skin(ms, idx, w, n, i, c), m.point(r, p)
    ensures is_point(r, p, ms, idx, w, n, i)
{ reveal(is_point); }
proof fn dir_is(r: Vec3, p: Vec3, m: Mat4, ms: Seq<Mat4>, idx: Seq<u16>, w: Seq<F>, n: int, i: int)
    requires forall|c: int| 0 <= c < 16 ==> #[trigger] m.e(c) == skin(ms, idx, w, n, i, c), m.vector(r, p)
    ensures is_dir(r, p, ms, idx, w, n, i)
{ reveal(is_dir); }
proof fn one(ms: Seq<Mat4>, idx: Seq<u16>, w: Seq<F>, i: int)
    ensures forall|c: int| 0 <= c < 16 ==> #[trigger] ms[idx[i] as int].e(c) == skin(ms, idx, w, 1, i, c)
{
    assert forall|c: int| 0 <= c < 16 implies #[trigger] ms[idx[i] as int].e(c) == skin(ms, idx, w, 1, i, c) by {
        reveal_with_fuel(psum, 1); reveal_with_fuel(wsum, 1);
        let x = ms[idx[i] as int].e(c);
        assert(x * (1real - 0real) == x) by (nonlinear_arith);
    }
}
// Where the influences of vertex i lie.
proof fn offsets(i: int, n: int, vc: int)
    requires 0 <= i < vc, n >= 1
    ensures 0 <= i * n, i * n + n == (i + 1) * n, (i + 1) * n <= vc * n, 0 <= i * (n - 1), i * (n - 1) + (n - 1) == (i + 1) * (n - 1), (i + 1) * (n - 1) <= vc * (n - 1)
{
    assert(0 <= i * n && i * n + n == (i + 1) * n && (i + 1) * n <= vc * n && 0 <= i * (n - 1) && i * (n - 1) + (n - 1) == (i + 1) * (n - 1) && (i + 1) * (n - 1) <= vc * (n - 1)) by (nonlinear_arith)
        requires 0 <= i < vc, n >= 1;
}
}
