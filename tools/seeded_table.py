bug("S01", "C18", [("src/ndarray/methods.rs", "Vec::from_raw_parts(self.mut_ptr(), self.len, self.capacity)", "Vec::from_raw_parts(self.mut_ptr(), self.len, self.len)")],
'''fn main() {
    let mut v = Vec::with_capacity(64); v.extend([1i32, 2, 3]);
    let a = NdArray::new(v);
    let out = a.into_data_vector();
    assert_eq!(out, [1, 2, 3]);
    assert_eq!(out.capacity(), 64, "the vector no longer knows the size of its allocation");
}''', "an array whose buffer was allocated with spare capacity, converted back into a vector", "the buffer is later freed with the wrong layout")

bug("S02", "C03", [("src/linalg/matrix_ops.rs", "if offset >= dim1 {", "if offset > dim1 {")],
'''fn main() {
    let a = NdArray::new([[1, 2, 3, 4], [5, 6, 7, 8]]);
    assert_eq!(a.offset_diagonal(-1), NdArray::new([5]));
    assert!(panics(|| a.offset_diagonal(-2).shape().to_vec()), "offset equal to the number of rows must be rejected");
}''', "a negative diagonal offset exactly equal to the length of the first axis", "an out-of-range diagonal is accepted")

bug("S03", "C16", [("src/autograd/util.rs", "if grad.shape() == original_shape {", "if grad.size() == original_shape.iter().product() {")],
'''fn main() {
    let mut x = Tensor::new([1.0f64, 2.0, 3.0]); x.set_requires_grad(true);
    let y = Tensor::new([[4.0f64, 5.0, 6.0]]);
    let z = &x * &y;
    z.backward();
    assert_eq!(x.gradient().unwrap().shape(), [3]);
    assert_eq!(x.gradient().unwrap(), NdArray::new([4.0, 5.0, 6.0]));
}''', "an operand broadcast only by added axes of length one", "the leaf receives a gradient of another shape")

bug("S04", "C17", [("src/tensor/autograd.rs", "if !required_grad && requires_grad {", "if requires_grad {")],
'''fn main() {
    let mut x = Tensor::new([1.0f64, 2.0]); x.set_requires_grad(true);
    let y = &x * 3.0; y.backward();
    x.set_requires_grad(true);
    let z = &x * 2.0; z.backward();
    assert_eq!(x.gradient().unwrap(), NdArray::new([5.0, 5.0]));
}''', "set_requires_grad(true) on a leaf that already requires gradients, between two backward passes", "accumulated gradients are lost")

bug("S05", "C13", [("src/ndarray/clone.rs", "if contiguous_stride == 1 {", "if contiguous_stride <= 1 {")],
'''fn main() {
    let a = NdArray::new([[1], [2]]);
    let b = a.broadcast_to(&[2, 3]);
    let c = b.clone();
    assert_eq!(c.data_slice(), [1, 1, 1, 2, 2, 2]);
}''', "cloning a view whose last axis is repeated by broadcasting", "the copy holds neighbouring memory instead of the repeated element")

bug("S06", "C05", [("src/ndarray/broadcast.rs", "        result.flags -= NdArrayFlags::Writeable;\n        result", "        if result.shape.len() != self.shape.len() {\n            result.flags -= NdArrayFlags::Writeable;\n        }\n        result")],
'''fn main() {
    let a = NdArray::new([[1], [2]]);
    let mut b = a.broadcast_to(&[2, 3]);
    assert!(panics(|| b += 1), "a broadcast view is read-only");
    assert_eq!(a, NdArray::new([[1], [2]]));
}''', "a broadcast that repeats an axis without adding one", "the view is writeable and repeated elements are updated several times")

bug("S08", "C21", [("src/ndarray/equals.rs", ("if self.shape != other.shape {", 2), "if self.shape.len() != other.shape.len() || self.size() != other.size() {"), ("src/ndarray/equals.rs", "use crate::NdArray;", "use crate::{NdArray, StridedMemory};")],
'''fn main() {
    let a = NdArray::new([[1, 2, 3], [4, 5, 6]]);
    let b = NdArray::new([[1, 2], [3, 4], [5, 6]]);
    assert!(!(a == &b), "different shapes compare equal");
    let c = a.clone();
    assert!(a == &c);
}''', "an array compared by reference with one of another shape but the same data order", "arrays of different shapes are equal")

bug("S11", "C11", [("src/linalg/sum_of_products.rs", "code += if strides[2] == 0 { 0 } else if strides[2] == 1 { 1 } else { 8 };", "code += if strides[2] == 0 { 0 } else if strides[2] == 1 { 1 } else { 2 };")],
'''fn main() {
    let a = NdArray::new([[1, 2, 3], [4, 5, 6]]);
    let s = NdArray::scalar(10);
    let r = redstone_ml::linalg::einsum([&a, &s], (["ij", ""], "ji"));
    assert_eq!(r, NdArray::new([[10, 40], [20, 50], [30, 60]]));
}''', "an inner loop over a contiguous operand and a scalar with an output stride larger than one", "einsum picks the kernel of another stride pattern")

bug("S12", "C14", [("src/ops/fill.rs", "Self::fill_uniform_stride(ptr, shape.iter().product(), stride, value)", "Self::fill_uniform_stride(ptr, len.div_ceil(stride.max(1)), stride, value)")],
'''fn main() {
    let a = NdArray::new([[1, 2, 3], [4, 5, 6], [7, 8, 9]]);
    let mut d = a.diagonal();
    d.fill(0);
    assert_eq!(d, NdArray::new([0, 0, 0]));
    assert_eq!(a, NdArray::new([[0, 2, 3], [4, 0, 6], [7, 8, 0]]));
}''', "filling a strided view whose length field is its element count (a diagonal)", "only some elements are filled")

bug("S13", "C01", [("src/ndarray/iterator/flat_index_generator.rs", "    indices: [usize; MAX_DIMS], // current", "    indices: [u16; MAX_DIMS], // current"),
  ("src/ndarray/iterator/flat_index_generator.rs", "*idx += 1;\n\n                if *idx < *self.shape.get_unchecked(i) {", "*idx = idx.wrapping_add(1);\n\n                if (*idx as usize) < *self.shape.get_unchecked(i) {"),
  ("src/ndarray/iterator/flat_index_generator.rs", "            *idx = total % dim;\n            carry = total / dim;\n\n            self.flat_index += self.stride[i] * (*idx - self.indices[i]);", "            *idx = (total % dim) as u16;\n            carry = total / dim;\n\n            self.flat_index += self.stride[i] * (total % dim - self.indices[i] as usize);"),
  ("src/ndarray/iterator/flat_index_generator.rs", "let total = *idx + carry;", "let total = *idx as usize + carry;")],
'''fn main() {
    let n = 70_000usize;
    let a = NdArray::arange(0i64, 2 * (n as i64 + 1));
    let m = (&a).reshape([2, n + 1]);
    let v = m.slice_along(Axis(1), 0..n);
    let mut it = v.flatiter();
    for r in 0..2i64 { for c in 0..n as i64 { assert_eq!(it.next(), Some(r * (n as i64 + 1) + c)); } }
    assert_eq!(it.next(), None);
}''', "a non-contiguous view with an inner axis longer than 65535", "the traversal never carries to the next row")

bug("S14", "C15", [("src/ndarray/iterator/util.rs", "        bitset[index] = true;\n", "        bitset[index] = true;\n        selected.push(data[index]);\n"), ("src/ndarray/iterator/util.rs", "        if bit {\n            selected.push(value);\n        } else {", "        if !bit {")],
'''fn main() {
    let a = NdArray::new([[[1, 2], [3, 4], [5, 6]], [[7, 8], [9, 10], [11, 12]]]);
    let firsts: Vec<i32> = a.nditer([1, 0]).map(|s| s[0]).collect();
    assert_eq!(firsts, [1, 3, 5, 7, 9, 11]);
}''', "nditer with axes listed out of order", "sub-arrays come in another order")

bug("S15", "C02", [("src/common/reshape.rs", "assert!(self.is_uniformly_strided(), ", "assert!(self.is_uniformly_strided() || self.len() == 1, ")],
'''fn main() {
    let a = NdArray::new([[[1, 2, 3], [4, 5, 6]]]);
    let t = (&a).transpose(1, 2);                    // shape (1, 3, 2), not uniformly strided
    let r = catch_unwind(AssertUnwindSafe(|| { let r = (&t).reshape([3, 2]); r.clone() }));
    if let Ok(r) = r { assert_eq!(r, NdArray::new([[1, 4], [2, 5], [3, 6]]), "a wrong view instead of a panic"); }
}''', "reshaping a transposed array whose first axis has length one", "a layout that cannot be reshaped without copying is accepted and yields wrong elements")

bug("S16", "C04", [("src/ndarray/index_impl.rs", ("assert_eq!(D, self.ndims(), \"[] index must equal number of array dimensions!\");", 2), "assert!(D <= self.ndims(), \"[] index must equal number of array dimensions!\");")],
'''fn main() {
    let mut a = NdArray::new([[1, 2], [3, 4]]);
    a[[1, 1]] = 5;
    assert!(panics(|| a[[1]] = 9), "an index with fewer entries than axes must be rejected");
    assert_eq!(a, NdArray::new([[1, 2], [3, 5]]));
}''', "writing with fewer indices than axes", "the first element of a sub-array is overwritten")

bug("S17", "C07", [("src/ndarray/assign_ops.rs", "if rhs.shape() == self.shape() {", "if rhs.size() == self.size() {")],
'''fn main() {
    let mut a = NdArray::new([[1, 2, 3]]);
    let b = NdArray::new([[10], [20], [30]]);
    assert!(panics(|| a += &b), "a (3, 1) operand does not broadcast to (1, 3)");
    assert_eq!(a, NdArray::new([[1, 2, 3]]));
}''', "an in-place operand with the same number of elements but an incompatible shape", "the update happens instead of a panic")

bug("S19", "C09", [("src/ndarray/reduce.rs", "        let axis = axis.as_absolute(ndims);\n        if axis_mask[axis] {\n            panic!(\"duplicate axes specified\");\n        }\n        axis_mask[axis] = true;", "        if axis >= 0 && axis_mask[axis.as_absolute(ndims)] {\n            panic!(\"duplicate axes specified\");\n        }\n        axis_mask[axis.as_absolute(ndims)] = true;")],
'''fn main() {
    let a = NdArray::new([[1, 2, 3], [4, 5, 6]]);
    assert_eq!(a.sum_along([-1]), NdArray::new([6, 15]));
    assert!(panics(|| a.sum_along([1, 1])));
    assert!(panics(|| a.sum_along([1, -1])), "the same axis given twice must be rejected");
}''', "the same axis named once from the front and then from the back", "duplicate axes are accepted")
