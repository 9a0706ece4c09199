F = "reverb/pybind.cc"
MC = "    memcpy(out_tensor->data(), PyArray_DATA(py_array), size);"
M = [
 ("int8-uint8", ["P35"], "bad", [(F, "NP_TO_TF_DTYPE_CASE(NPY_INT8, tensorflow::DT_INT8)", "NP_TO_TF_DTYPE_CASE(NPY_INT8, tensorflow::DT_UINT8)")]),
 ("uint32-int32", ["P35"], "bad", [(F, "TF_TO_PY_ARRAY_TYPE_CASE(tensorflow::DT_UINT32, NPY_UINT32)", "TF_TO_PY_ARRAY_TYPE_CASE(tensorflow::DT_UINT32, NPY_INT32)")]),
 ("half-int16", ["P35"], "bad", [(F, "NP_TO_TF_DTYPE_CASE(NPY_FLOAT16, tensorflow::DT_HALF)", "NP_TO_TF_DTYPE_CASE(NPY_FLOAT16, tensorflow::DT_BFLOAT16)")]),
 ("int64-dropped", ["P35"], "bad", [(F, "    TF_TO_PY_ARRAY_TYPE_CASE(tensorflow::DT_INT64, NPY_INT64)\n", "")]),
 ("longlong", ["P35"], "ok", [(F, "TF_TO_PY_ARRAY_TYPE_CASE(tensorflow::DT_INT64, NPY_INT64)", "TF_TO_PY_ARRAY_TYPE_CASE(tensorflow::DT_INT64, NPY_LONGLONG)")]),
 ("no-unicode", ["P35"], "ok", [(F, "    NP_TO_TF_DTYPE_CASE(NPY_UNICODE, tensorflow::DT_STRING)\n", "")]),
 ("flags", ["P35"], "bad", [(F, "NPY_ARRAY_CARRAY_RO |", "NPY_ARRAY_ALIGNED |")]),
 ("size-nelems", ["P35"], "bad", [(F, "    size_t size = PyArray_NBYTES(py_array);", "    size_t size = nelems * sizeof(float);")]),
 ("size-total", ["P35"], "ok", [(F, "    size_t size = PyArray_NBYTES(py_array);", "    size_t size = out_tensor->TotalBytes();")]),
 ("dims-transposed", ["P35"], "bad", [(F, "    dims[i] = PyArray_SHAPE(py_array)[i];", "    dims[i] = PyArray_SHAPE(py_array)[PyArray_NDIM(py_array) - 1 - i];")]),
 ("dim-size", ["P35"], "bad", [(F, "    dims[i] = tensor.dim_size(i);", "    dims[i] = tensor.dim_size(0);")]),
 ("dims-PyArray_DIM", ["P35"], "ok", [(F, "    dims[i] = PyArray_SHAPE(py_array)[i];", "    dims[i] = PyArray_DIM(py_array, i);")]),
 ("wrong-dtype", ["P35"], "bad", [(F, '''    *out_tensor = tensorflow::Tensor(dtype, tensorflow::TensorShape(dims));
    size_t''', '''    *out_tensor = tensorflow::Tensor(tensorflow::DT_FLOAT, tensorflow::TensorShape(dims));
    size_t''')]),
 ("dtype-unchecked", ["P35"], "bad", [(F, "  TF_RETURN_IF_ERROR(GetTensorDtypeFromPyArray(py_array, &dtype));", "  GetTensorDtypeFromPyArray(py_array, &dtype).IgnoreError();")]),
 ("strings-unchecked", ["P35"], "bad", [(F, "    TF_RETURN_IF_ERROR(StringTensorToPyArray(tensor, py_array));", "    StringTensorToPyArray(tensor, py_array).IgnoreError();")]),
 ("no-copy", ["P35"], "bad", [(F, "    memcpy(PyArray_DATA(py_array), tensor.data(), PyArray_NBYTES(py_array));\n", "    if (tensor.NumElements() > 1)\n      memcpy(PyArray_DATA(py_array), tensor.data(), PyArray_NBYTES(py_array));\n")]),
 ("fortran", ["P35"], "bad", [(F, "PyArray_Empty(dims.size(), dims.data(), descr, 0)", "PyArray_Empty(dims.size(), dims.data(), descr, 1)")]),
 ("zeros", ["P35"], "ok", [(F, "PyArray_Empty(dims.size(), dims.data(), descr, 0)", "PyArray_Zeros(dims.size(), dims.data(), descr, 0)")]),
 ("load-true", ["P35"], "bad", [(F, '''      PyErr_Clear();
      return false;''', '''      PyErr_Clear();
      return true;''')]),
 ("load-noclear", ["P35"], "bad", [(F, '''      PyErr_Clear();
      return false;''', '''      return false;''')]),
 ("cast-noset", ["P35"], "bad", [(F, '''      PyErr_SetString(PyExc_ValueError, message.data());
      return nullptr;''', '''      return nullptr;''')]),
 ("cast-ret", ["P35"], "bad", [(F, '''      PyErr_SetString(PyExc_ValueError, message.data());
      return nullptr;''', '''      PyErr_SetString(PyExc_ValueError, message.data());
      return ret;''')]),
 ("load-early", ["P35"], "ok", [(F, '''    tensorflow::Status status = NdArrayToTensor(handle.ptr(), &value);

    if (!status.ok()) {''', '''    tensorflow::Status status = NdArrayToTensor(handle.ptr(), &value);
    if (status.ok()) return true;
    {''')]),
 ("swap-branches", ["P35"], "ok", [(F, '''  if (tensorflow::DataTypeCanUseMemcpy(tensor.dtype())) {
    memcpy(PyArray_DATA(py_array), tensor.data(), PyArray_NBYTES(py_array));
  } else if (tensor.dtype() == tensorflow::DT_STRING) {
    TF_RETURN_IF_ERROR(StringTensorToPyArray(tensor, py_array));
  } else {''', '''  if (tensor.dtype() == tensorflow::DT_STRING) {
    auto converted = StringTensorToPyArray(tensor, py_array);
    if (!converted.ok()) return converted;
  } else if (tensorflow::DataTypeCanUseMemcpy(tensor.dtype())) {
    const size_t bytes = PyArray_NBYTES(py_array);
    memcpy(PyArray_DATA(py_array), tensor.data(), bytes);
  } else {''')]),
 ("swapped", ["P35"], "bad", [(F, " | NPY_ARRAY_NOTSWAPPED", "")]),
 ("fromany", ["P35"], "bad", [(F, "make_safe(PyArray_CheckFromAny(", "make_safe(PyArray_FromAny(")]),
]
