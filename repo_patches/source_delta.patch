From c9601a5705b7d0e99df13539fe1f70606d246a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:42 +0000
Subject: [PATCH 01/72] fix: generator methods read their arguments before
 taking the lock

Reading a size can run Python code (__index__), which may switch threads or
draw from the same generator; doing so under the lock deadlocked.
---
 src/python/random.rs | 183 ++++++++++++++++++++++---------------------
 1 file changed, 93 insertions(+), 90 deletions(-)

diff --git a/src/python/random.rs b/src/python/random.rs
index 9032e35..abd472e 100644
--- a/src/python/random.rs
+++ b/src/python/random.rs
@@ -11,6 +11,9 @@ use super::{parse_shape, PyRumpyArray};
 /// Python wrapper for Generator.
 /// Uses Mutex for interior mutability since Generator needs &mut self
 /// and pyo3 requires thread safety.
+///
+/// Reading arguments can run Python code (e.g. `__index__`), which may switch threads
+/// or draw from this very generator: methods take the lock only after that.
 #[pyclass(name = "Generator")]
 pub struct PyGenerator {
     inner: Mutex<Generator>,
@@ -58,14 +61,14 @@ impl PyGenerator {
     #[pyo3(signature = (size=None))]
     fn random(&self, size: Option<&Bound<'_, PyAny>>) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     // Return scalar
                     Ok(gen.next_f64().into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.random(shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -88,16 +91,16 @@ impl PyGenerator {
         };
 
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     // Return scalar - use integers with shape [1] and extract
                     let arr = gen.integers(low, high, vec![1]);
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.integers(low, high, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -114,15 +117,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     // Return scalar
                     let val = low + gen.next_f64() * (high - low);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.uniform(low, high, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -139,15 +142,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     // Return scalar
                     let z = gen.next_standard_normal();
                     Ok((loc + scale * z).into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.normal(loc, scale, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -159,14 +162,14 @@ impl PyGenerator {
     #[pyo3(signature = (size=None))]
     fn standard_normal(&self, size: Option<&Bound<'_, PyAny>>) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let z = gen.next_standard_normal();
                     Ok(z.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.standard_normal(shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -182,14 +185,14 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let z = gen.next_standard_exponential();
                     Ok((scale * z).into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.exponential(scale, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -201,14 +204,14 @@ impl PyGenerator {
     #[pyo3(signature = (size=None))]
     fn standard_exponential(&self, size: Option<&Bound<'_, PyAny>>) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let z = gen.next_standard_exponential();
                     Ok(z.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.standard_exponential(shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -218,10 +221,9 @@ impl PyGenerator {
 
     /// Random permutation of integers from 0 to x-1, or a shuffled copy of x.
     fn permutation(&self, x: &Bound<'_, pyo3::PyAny>) -> PyResult<PyRumpyArray> {
-        let mut gen = self.inner.lock().unwrap();
-
         // Try integer first
         if let Ok(n) = x.extract::<usize>() {
+            let mut gen = self.inner.lock().unwrap();
             let arr = gen.permutation(n);
             return Ok(PyRumpyArray::new(arr));
         }
@@ -237,6 +239,7 @@ impl PyGenerator {
                 data.push(unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0));
             }
             // Shuffle
+            let mut gen = self.inner.lock().unwrap();
             gen.shuffle_data(&mut data);
             let result = RumpyArray::from_vec(data, DType::float64());
             return Ok(PyRumpyArray::new(result));
@@ -295,16 +298,16 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     // Return scalar - use beta with shape [1] and extract
                     let arr = gen.beta(a, b, vec![1]);
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.beta(a, b, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -321,15 +324,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let arr = gen.gamma(shape_param, scale, vec![1]);
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.gamma(shape_param, scale, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -345,15 +348,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let arr = gen.poisson(lam, vec![1]);
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.poisson(lam, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -370,15 +373,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let arr = gen.binomial(n, p, vec![1]);
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.binomial(n, p, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -394,15 +397,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let arr = gen.chisquare(df, vec![1]);
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.chisquare(df, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -435,15 +438,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let arr = gen.lognormal(mean, sigma, vec![1]);
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.lognormal(mean, sigma, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -460,15 +463,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let arr = gen.laplace(loc, scale, vec![1]);
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.laplace(loc, scale, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -485,15 +488,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let arr = gen.logistic(loc, scale, vec![1]);
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.logistic(loc, scale, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -509,15 +512,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let arr = gen.rayleigh(scale, vec![1]);
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.rayleigh(scale, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -533,15 +536,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let arr = gen.weibull(a, vec![1]);
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.weibull(a, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -559,15 +562,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let arr = gen.geometric(p, vec![1]);
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.geometric(p, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -584,15 +587,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let arr = gen.negative_binomial(n, p, vec![1]);
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.negative_binomial(n, p, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -610,15 +613,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let arr = gen.hypergeometric(ngood, nbad, nsample, vec![1]);
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.hypergeometric(ngood, nbad, nsample, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -648,15 +651,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let arr = gen.zipf(a, vec![1]);
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.zipf(a, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -676,15 +679,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let arr = gen.triangular(left, mode, right, vec![1]);
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.triangular(left, mode, right, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -701,15 +704,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let arr = gen.vonmises(mu, kappa, vec![1]);
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.vonmises(mu, kappa, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -725,15 +728,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let arr = gen.pareto(a, vec![1]);
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.pareto(a, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -750,15 +753,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let arr = gen.wald(mean, scale, vec![1]);
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.wald(mean, scale, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -787,15 +790,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let arr = gen.standard_t(df, vec![1]);
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.standard_t(df, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -810,15 +813,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let arr = gen.standard_cauchy(vec![1]);
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.standard_cauchy(shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -834,15 +837,15 @@ impl PyGenerator {
         size: Option<&Bound<'_, PyAny>>,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
+            let shape = size.map(parse_shape).transpose()?;
             let mut gen = self.inner.lock().unwrap();
-            match size {
+            match shape {
                 None => {
                     let arr = gen.standard_gamma_dist(shape_param, vec![1]);
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
-                Some(s) => {
-                    let shape = parse_shape(s)?;
+                Some(shape) => {
                     let arr = gen.standard_gamma_dist(shape_param, shape);
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
@@ -861,10 +864,9 @@ impl PyGenerator {
         replace: bool,
     ) -> PyResult<PyObject> {
         Python::with_gil(|py| {
-            let mut gen = self.inner.lock().unwrap();
-
             // Parse `a` - either integer (range) or array-like
-            let values: Option<Vec<f64>> = if a.extract::<usize>().is_ok() {
+            let range = a.extract::<usize>().ok();
+            let values: Option<Vec<f64>> = if range.is_some() {
                 None // Integer case: sample indices directly
             } else if let Ok(arr) = a.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
                 let ptr = arr.inner.data_ptr();
@@ -887,7 +889,7 @@ impl PyGenerator {
 
             let n = match &values {
                 Some(v) => v.len(),
-                None => a.extract::<usize>().unwrap(),
+                None => range.unwrap_or(0),
             };
 
             if n == 0 {
@@ -909,6 +911,7 @@ impl PyGenerator {
             }
 
             // Generate samples
+            let mut gen = self.inner.lock().unwrap();
             let result_data: Vec<f64> = if replace {
                 (0..total).map(|_| {
                     let idx = gen.bounded_uint64(n as u64) as usize;
-- 
2.43.0


From 43cbce8f93b995129a32291f9944a8c4a3dd6fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:38 +0000
Subject: [PATCH 02/72] fix: out-of-domain distribution parameters raise
 ValueError

They panicked while the generator's lock was held, which also poisoned the lock
and made every later call on that generator fail.
---
 src/python/random.rs    |  90 ++++++++++----------
 src/random/generator.rs | 181 +++++++++++++++++++++++-----------------
 src/random/mod.rs       |   2 +-
 3 files changed, 153 insertions(+), 120 deletions(-)

diff --git a/src/python/random.rs b/src/python/random.rs
index abd472e..4525882 100644
--- a/src/python/random.rs
+++ b/src/python/random.rs
@@ -5,7 +5,7 @@ use rand_core::RngCore;
 use std::sync::Mutex;
 
 use crate::array::{DType, RumpyArray};
-use crate::random::Generator;
+use crate::random::{Generator, InvalidParameter};
 use super::{parse_shape, PyRumpyArray};
 
 /// Python wrapper for Generator.
@@ -19,6 +19,12 @@ pub struct PyGenerator {
     inner: Mutex<Generator>,
 }
 
+impl From<InvalidParameter> for PyErr {
+    fn from(e: InvalidParameter) -> PyErr {
+        pyo3::exceptions::PyValueError::new_err(e.0)
+    }
+}
+
 #[pymethods]
 impl PyGenerator {
     /// Create Generator with PCG64DXSM BitGenerator.
@@ -96,12 +102,12 @@ impl PyGenerator {
             match shape {
                 None => {
                     // Return scalar - use integers with shape [1] and extract
-                    let arr = gen.integers(low, high, vec![1]);
+                    let arr = gen.integers(low, high, vec![1])?;
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
-                    let arr = gen.integers(low, high, shape);
+                    let arr = gen.integers(low, high, shape)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -151,7 +157,7 @@ impl PyGenerator {
                     Ok((loc + scale * z).into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
-                    let arr = gen.normal(loc, scale, shape);
+                    let arr = gen.normal(loc, scale, shape)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -193,7 +199,7 @@ impl PyGenerator {
                     Ok((scale * z).into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
-                    let arr = gen.exponential(scale, shape);
+                    let arr = gen.exponential(scale, shape)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -303,12 +309,12 @@ impl PyGenerator {
             match shape {
                 None => {
                     // Return scalar - use beta with shape [1] and extract
-                    let arr = gen.beta(a, b, vec![1]);
+                    let arr = gen.beta(a, b, vec![1])?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
-                    let arr = gen.beta(a, b, shape);
+                    let arr = gen.beta(a, b, shape)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -328,12 +334,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match shape {
                 None => {
-                    let arr = gen.gamma(shape_param, scale, vec![1]);
+                    let arr = gen.gamma(shape_param, scale, vec![1])?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
-                    let arr = gen.gamma(shape_param, scale, shape);
+                    let arr = gen.gamma(shape_param, scale, shape)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -352,12 +358,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match shape {
                 None => {
-                    let arr = gen.poisson(lam, vec![1]);
+                    let arr = gen.poisson(lam, vec![1])?;
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
-                    let arr = gen.poisson(lam, shape);
+                    let arr = gen.poisson(lam, shape)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -377,12 +383,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match shape {
                 None => {
-                    let arr = gen.binomial(n, p, vec![1]);
+                    let arr = gen.binomial(n, p, vec![1])?;
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
-                    let arr = gen.binomial(n, p, shape);
+                    let arr = gen.binomial(n, p, shape)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -401,12 +407,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match shape {
                 None => {
-                    let arr = gen.chisquare(df, vec![1]);
+                    let arr = gen.chisquare(df, vec![1])?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
-                    let arr = gen.chisquare(df, shape);
+                    let arr = gen.chisquare(df, shape)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -423,7 +429,7 @@ impl PyGenerator {
     ) -> PyResult<PyRumpyArray> {
         let mut gen = self.inner.lock().unwrap();
         let n = size.unwrap_or(1);
-        let arr = gen.multivariate_normal(&mean, &cov, n);
+        let arr = gen.multivariate_normal(&mean, &cov, n)?;
         Ok(PyRumpyArray::new(arr))
     }
 
@@ -442,12 +448,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match shape {
                 None => {
-                    let arr = gen.lognormal(mean, sigma, vec![1]);
+                    let arr = gen.lognormal(mean, sigma, vec![1])?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
-                    let arr = gen.lognormal(mean, sigma, shape);
+                    let arr = gen.lognormal(mean, sigma, shape)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -540,12 +546,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match shape {
                 None => {
-                    let arr = gen.weibull(a, vec![1]);
+                    let arr = gen.weibull(a, vec![1])?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
-                    let arr = gen.weibull(a, shape);
+                    let arr = gen.weibull(a, shape)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -566,12 +572,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match shape {
                 None => {
-                    let arr = gen.geometric(p, vec![1]);
+                    let arr = gen.geometric(p, vec![1])?;
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
-                    let arr = gen.geometric(p, shape);
+                    let arr = gen.geometric(p, shape)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -591,12 +597,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match shape {
                 None => {
-                    let arr = gen.negative_binomial(n, p, vec![1]);
+                    let arr = gen.negative_binomial(n, p, vec![1])?;
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
-                    let arr = gen.negative_binomial(n, p, shape);
+                    let arr = gen.negative_binomial(n, p, shape)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -617,12 +623,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match shape {
                 None => {
-                    let arr = gen.hypergeometric(ngood, nbad, nsample, vec![1]);
+                    let arr = gen.hypergeometric(ngood, nbad, nsample, vec![1])?;
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
-                    let arr = gen.hypergeometric(ngood, nbad, nsample, shape);
+                    let arr = gen.hypergeometric(ngood, nbad, nsample, shape)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -639,7 +645,7 @@ impl PyGenerator {
     ) -> PyResult<PyRumpyArray> {
         let mut gen = self.inner.lock().unwrap();
         let sz = size.unwrap_or(1);
-        let arr = gen.multinomial(n, &pvals, sz);
+        let arr = gen.multinomial(n, &pvals, sz)?;
         Ok(PyRumpyArray::new(arr))
     }
 
@@ -655,12 +661,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match shape {
                 None => {
-                    let arr = gen.zipf(a, vec![1]);
+                    let arr = gen.zipf(a, vec![1])?;
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
-                    let arr = gen.zipf(a, shape);
+                    let arr = gen.zipf(a, shape)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -683,12 +689,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match shape {
                 None => {
-                    let arr = gen.triangular(left, mode, right, vec![1]);
+                    let arr = gen.triangular(left, mode, right, vec![1])?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
-                    let arr = gen.triangular(left, mode, right, shape);
+                    let arr = gen.triangular(left, mode, right, shape)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -732,12 +738,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match shape {
                 None => {
-                    let arr = gen.pareto(a, vec![1]);
+                    let arr = gen.pareto(a, vec![1])?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
-                    let arr = gen.pareto(a, shape);
+                    let arr = gen.pareto(a, shape)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -757,12 +763,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match shape {
                 None => {
-                    let arr = gen.wald(mean, scale, vec![1]);
+                    let arr = gen.wald(mean, scale, vec![1])?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
-                    let arr = gen.wald(mean, scale, shape);
+                    let arr = gen.wald(mean, scale, shape)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -778,7 +784,7 @@ impl PyGenerator {
     ) -> PyResult<PyRumpyArray> {
         let mut gen = self.inner.lock().unwrap();
         let sz = size.unwrap_or(1);
-        let arr = gen.dirichlet(&alpha, sz);
+        let arr = gen.dirichlet(&alpha, sz)?;
         Ok(PyRumpyArray::new(arr))
     }
 
@@ -794,12 +800,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match shape {
                 None => {
-                    let arr = gen.standard_t(df, vec![1]);
+                    let arr = gen.standard_t(df, vec![1])?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
-                    let arr = gen.standard_t(df, shape);
+                    let arr = gen.standard_t(df, shape)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -817,12 +823,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match shape {
                 None => {
-                    let arr = gen.standard_cauchy(vec![1]);
+                    let arr = gen.standard_cauchy(vec![1])?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
-                    let arr = gen.standard_cauchy(shape);
+                    let arr = gen.standard_cauchy(shape)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -841,12 +847,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match shape {
                 None => {
-                    let arr = gen.standard_gamma_dist(shape_param, vec![1]);
+                    let arr = gen.standard_gamma_dist(shape_param, vec![1])?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
-                    let arr = gen.standard_gamma_dist(shape_param, shape);
+                    let arr = gen.standard_gamma_dist(shape_param, shape)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
diff --git a/src/random/generator.rs b/src/random/generator.rs
index 3fe0b49..bed92e7 100644
--- a/src/random/generator.rs
+++ b/src/random/generator.rs
@@ -10,6 +10,14 @@ use rand_distr::Distribution;
 use crate::array::{DType, RumpyArray};
 use super::pcg64::Pcg64Dxsm;
 
+/// A distribution parameter outside the distribution's domain.
+#[derive(Debug)]
+pub struct InvalidParameter(pub String);
+
+fn invalid<E: std::fmt::Display>(e: E) -> InvalidParameter {
+    InvalidParameter(e.to_string())
+}
+
 /// RNG backend - either rand_pcg's version or our numpy-compatible one.
 enum RngBackend {
     RandPcg(RandPcg64Dxsm),
@@ -95,18 +103,21 @@ impl Generator {
     }
 
     /// Generate random integers in [low, high).
-    pub fn integers(&mut self, low: i64, high: i64, shape: Vec<usize>) -> RumpyArray {
-        let range = (high - low) as u64;
+    pub fn integers(&mut self, low: i64, high: i64, shape: Vec<usize>) -> Result<RumpyArray, InvalidParameter> {
+        if low >= high {
+            return Err(invalid("low >= high"));
+        }
+        let range = high.wrapping_sub(low) as u64;
         let size: usize = shape.iter().product();
         let mut data = Vec::with_capacity(size);
 
         for _ in 0..size {
             // Bounded rejection sampling for uniform distribution
             let val = self.bounded_uint64(range);
-            data.push((low + val as i64) as f64);
+            data.push(low.wrapping_add(val as i64) as f64);
         }
 
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::int64()))
     }
 
     /// Generate bounded random u64 in [0, range) using Lemire's algorithm.
@@ -157,11 +168,11 @@ impl Generator {
     }
 
     /// Generate samples from normal distribution using Ziggurat algorithm.
-    pub fn normal(&mut self, loc: f64, scale: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn normal(&mut self, loc: f64, scale: f64, shape: Vec<usize>) -> Result<RumpyArray, InvalidParameter> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Normal::new(loc, scale).unwrap();
+        let dist = rand_distr::Normal::new(loc, scale).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from standard exponential distribution using Ziggurat algorithm.
@@ -179,11 +190,11 @@ impl Generator {
     }
 
     /// Generate samples from exponential distribution.
-    pub fn exponential(&mut self, scale: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn exponential(&mut self, scale: f64, shape: Vec<usize>) -> Result<RumpyArray, InvalidParameter> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Exp::new(1.0 / scale).unwrap();
+        let dist = rand_distr::Exp::new(1.0 / scale).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Random permutation of integers from 0 to n-1, or a shuffled copy of an array.
@@ -207,47 +218,41 @@ impl Generator {
         }
     }
 
-    /// Generate one standard gamma value using rand_distr (optimized algorithm).
-    #[inline]
-    fn next_standard_gamma(&mut self, shape_param: f64) -> f64 {
-        rand_distr::Gamma::new(shape_param, 1.0).unwrap().sample(self)
-    }
-
     /// Generate samples from gamma distribution.
-    pub fn gamma(&mut self, shape_param: f64, scale: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn gamma(&mut self, shape_param: f64, scale: f64, shape: Vec<usize>) -> Result<RumpyArray, InvalidParameter> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Gamma::new(shape_param, scale).unwrap();
+        let dist = rand_distr::Gamma::new(shape_param, scale).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from beta distribution.
-    pub fn beta(&mut self, a: f64, b: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn beta(&mut self, a: f64, b: f64, shape: Vec<usize>) -> Result<RumpyArray, InvalidParameter> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Beta::new(a, b).unwrap();
+        let dist = rand_distr::Beta::new(a, b).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from Poisson distribution.
-    pub fn poisson(&mut self, lam: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn poisson(&mut self, lam: f64, shape: Vec<usize>) -> Result<RumpyArray, InvalidParameter> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Poisson::new(lam).unwrap();
+        let dist = rand_distr::Poisson::new(lam).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self) as f64).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::int64()))
     }
 
     /// Generate samples from binomial distribution.
-    pub fn binomial(&mut self, n: u64, p: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn binomial(&mut self, n: u64, p: f64, shape: Vec<usize>) -> Result<RumpyArray, InvalidParameter> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Binomial::new(n, p).unwrap();
+        let dist = rand_distr::Binomial::new(n, p).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self) as f64).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::int64()))
     }
 
     /// Generate samples from chi-square distribution.
     /// Chi-square(k) = Gamma(k/2, 2)
-    pub fn chisquare(&mut self, df: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn chisquare(&mut self, df: f64, shape: Vec<usize>) -> Result<RumpyArray, InvalidParameter> {
         self.gamma(df / 2.0, 2.0, shape)
     }
 
@@ -258,8 +263,11 @@ impl Generator {
         mean: &[f64],
         cov: &[Vec<f64>],
         size: usize,
-    ) -> RumpyArray {
+    ) -> Result<RumpyArray, InvalidParameter> {
         let d = mean.len();
+        if cov.len() != d || cov.iter().any(|row| row.len() != d) {
+            return Err(invalid("mean and cov must have same length"));
+        }
 
         // Cholesky decomposition (lower triangular)
         let mut l = vec![vec![0.0; d]; d];
@@ -291,17 +299,17 @@ impl Generator {
             }
         }
 
-        RumpyArray::from_vec_with_shape(data, vec![size, d], DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, vec![size, d], DType::float64()))
     }
 
     // === Tier 1 Distributions: Common ===
 
     /// Generate samples from lognormal distribution.
-    pub fn lognormal(&mut self, mean: f64, sigma: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn lognormal(&mut self, mean: f64, sigma: f64, shape: Vec<usize>) -> Result<RumpyArray, InvalidParameter> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::LogNormal::new(mean, sigma).unwrap();
+        let dist = rand_distr::LogNormal::new(mean, sigma).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from Laplace distribution (inverse CDF).
@@ -334,46 +342,59 @@ impl Generator {
     }
 
     /// Generate samples from Weibull distribution.
-    pub fn weibull(&mut self, a: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn weibull(&mut self, a: f64, shape: Vec<usize>) -> Result<RumpyArray, InvalidParameter> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Weibull::new(1.0, a).unwrap();
+        let dist = rand_distr::Weibull::new(1.0, a).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     // === Tier 2 Distributions: Discrete ===
 
     /// Generate samples from geometric distribution.
-    pub fn geometric(&mut self, p: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn geometric(&mut self, p: f64, shape: Vec<usize>) -> Result<RumpyArray, InvalidParameter> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Geometric::new(p).unwrap();
+        let dist = rand_distr::Geometric::new(p).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self) as f64).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::int64()))
     }
 
     /// Generate samples from negative binomial distribution.
-    pub fn negative_binomial(&mut self, n: f64, p: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn negative_binomial(&mut self, n: f64, p: f64, shape: Vec<usize>) -> Result<RumpyArray, InvalidParameter> {
         let size: usize = shape.iter().product();
         // Use gamma-Poisson mixture: NB(n, p) = Poisson(Gamma(n, (1-p)/p))
-        let gamma_dist = rand_distr::Gamma::new(n, (1.0 - p) / p).unwrap();
-        let data: Vec<f64> = (0..size).map(|_| {
+        if p.is_nan() || p <= 0.0 {
+            return Err(invalid("p must be greater than 0"));
+        }
+        let gamma_dist = rand_distr::Gamma::new(n, (1.0 - p) / p).map_err(invalid)?;
+        let data = (0..size).map(|_| {
             let y = gamma_dist.sample(self);
-            rand_distr::Poisson::new(y).unwrap().sample(self) as f64
-        }).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+            if y == 0.0 {
+                return Ok(0.0);
+            }
+            Ok(rand_distr::Poisson::new(y).map_err(invalid)?.sample(self))
+        }).collect::<Result<Vec<f64>, InvalidParameter>>()?;
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::int64()))
     }
 
     /// Generate samples from hypergeometric distribution.
-    pub fn hypergeometric(&mut self, ngood: u64, nbad: u64, nsample: u64, shape: Vec<usize>) -> RumpyArray {
+    pub fn hypergeometric(&mut self, ngood: u64, nbad: u64, nsample: u64, shape: Vec<usize>) -> Result<RumpyArray, InvalidParameter> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Hypergeometric::new(ngood + nbad, ngood, nsample).unwrap();
+        let total = ngood.checked_add(nbad).ok_or_else(|| invalid("ngood + nbad is too large"))?;
+        let dist = rand_distr::Hypergeometric::new(total, ngood, nsample).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self) as f64).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::int64()))
     }
 
     /// Generate samples from multinomial distribution.
-    pub fn multinomial(&mut self, n: u64, pvals: &[f64], size: usize) -> RumpyArray {
+    pub fn multinomial(&mut self, n: u64, pvals: &[f64], size: usize) -> Result<RumpyArray, InvalidParameter> {
         let k = pvals.len();
+        if k == 0 || !pvals.iter().all(|p| (0.0..=1.0).contains(p)) {
+            return Err(invalid("pvals must be a non-empty sequence of probabilities"));
+        }
+        if pvals[..k - 1].iter().sum::<f64>() > 1.0 + 1e-12 {
+            return Err(invalid("sum(pvals[:-1]) > 1.0"));
+        }
         let mut data = vec![0.0; size * k];
         for i in 0..size {
             let row = &mut data[i * k..(i + 1) * k];
@@ -381,8 +402,8 @@ impl Generator {
             let mut p_remaining = 1.0;
             for j in 0..k - 1 {
                 if p_remaining > 0.0 {
-                    let p = pvals[j] / p_remaining;
-                    let c = rand_distr::Binomial::new(remaining, p).unwrap().sample(self);
+                    let p = (pvals[j] / p_remaining).min(1.0);
+                    let c = rand_distr::Binomial::new(remaining, p).map_err(invalid)?.sample(self);
                     row[j] = c as f64;
                     remaining -= c;
                     p_remaining -= pvals[j];
@@ -390,13 +411,16 @@ impl Generator {
             }
             row[k - 1] = remaining as f64;
         }
-        RumpyArray::from_vec_with_shape(data, vec![size, k], DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, vec![size, k], DType::float64()))
     }
 
     /// Generate samples from Zipf distribution (rejection sampling).
-    pub fn zipf(&mut self, a: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn zipf(&mut self, a: f64, shape: Vec<usize>) -> Result<RumpyArray, InvalidParameter> {
         let size: usize = shape.iter().product();
         // Use rejection sampling (rand_distr::Zipf has incompatible API)
+        if a.is_nan() || a <= 1.0 {
+            return Err(invalid("a must be greater than 1"));
+        }
         let am1 = a - 1.0;
         let b = 2.0_f64.powf(am1);
         let data: Vec<f64> = (0..size).map(|_| {
@@ -410,17 +434,17 @@ impl Generator {
                 }
             }
         }).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::int64()))
     }
 
     // === Tier 3 Distributions: Specialized ===
 
     /// Generate samples from triangular distribution.
-    pub fn triangular(&mut self, left: f64, mode: f64, right: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn triangular(&mut self, left: f64, mode: f64, right: f64, shape: Vec<usize>) -> Result<RumpyArray, InvalidParameter> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Triangular::new(left, right, mode).unwrap();
+        let dist = rand_distr::Triangular::new(left, right, mode).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from von Mises distribution.
@@ -450,59 +474,62 @@ impl Generator {
     }
 
     /// Generate samples from Pareto distribution.
-    pub fn pareto(&mut self, a: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn pareto(&mut self, a: f64, shape: Vec<usize>) -> Result<RumpyArray, InvalidParameter> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Pareto::new(1.0, a).unwrap();
+        let dist = rand_distr::Pareto::new(1.0, a).map_err(invalid)?;
         // NumPy's pareto returns (X - 1) where X ~ Pareto(1, a)
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self) - 1.0).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from Wald (inverse Gaussian) distribution.
-    pub fn wald(&mut self, mean: f64, scale: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn wald(&mut self, mean: f64, scale: f64, shape: Vec<usize>) -> Result<RumpyArray, InvalidParameter> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::InverseGaussian::new(mean, scale).unwrap();
+        let dist = rand_distr::InverseGaussian::new(mean, scale).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from Dirichlet distribution.
-    pub fn dirichlet(&mut self, alpha: &[f64], size: usize) -> RumpyArray {
+    pub fn dirichlet(&mut self, alpha: &[f64], size: usize) -> Result<RumpyArray, InvalidParameter> {
         let k = alpha.len();
+        let dists = alpha.iter()
+            .map(|&a| rand_distr::Gamma::new(a, 1.0).map_err(invalid))
+            .collect::<Result<Vec<_>, _>>()?;
         // Can't use rand_distr::Dirichlet (requires const generic array size)
         // Use Gamma sampling: sample Gamma(alpha_i, 1) and normalize
         let mut data = Vec::with_capacity(size * k);
         for _ in 0..size {
-            let gamma_samples: Vec<f64> = alpha.iter()
-                .map(|&a| self.next_standard_gamma(a))
+            let gamma_samples: Vec<f64> = dists.iter()
+                .map(|dist| dist.sample(self))
                 .collect();
             let sum: f64 = gamma_samples.iter().sum();
             data.extend(gamma_samples.iter().map(|&g| g / sum));
         }
-        RumpyArray::from_vec_with_shape(data, vec![size, k], DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, vec![size, k], DType::float64()))
     }
 
     /// Generate samples from standard Student's t distribution.
-    pub fn standard_t(&mut self, df: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn standard_t(&mut self, df: f64, shape: Vec<usize>) -> Result<RumpyArray, InvalidParameter> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::StudentT::new(df).unwrap();
+        let dist = rand_distr::StudentT::new(df).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from standard Cauchy distribution.
-    pub fn standard_cauchy(&mut self, shape: Vec<usize>) -> RumpyArray {
+    pub fn standard_cauchy(&mut self, shape: Vec<usize>) -> Result<RumpyArray, InvalidParameter> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Cauchy::new(0.0, 1.0).unwrap();
+        let dist = rand_distr::Cauchy::new(0.0, 1.0).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from standard gamma distribution (shape only, scale=1).
-    pub fn standard_gamma_dist(&mut self, shape_param: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn standard_gamma_dist(&mut self, shape_param: f64, shape: Vec<usize>) -> Result<RumpyArray, InvalidParameter> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Gamma::new(shape_param, 1.0).unwrap();
+        let dist = rand_distr::Gamma::new(shape_param, 1.0).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 }
diff --git a/src/random/mod.rs b/src/random/mod.rs
index 42fecfa..bb256c3 100644
--- a/src/random/mod.rs
+++ b/src/random/mod.rs
@@ -5,7 +5,7 @@
 mod generator;
 mod pcg64;
 
-pub use generator::Generator;
+pub use generator::{Generator, InvalidParameter};
 
 /// Create a new Generator with PCG64DXSM BitGenerator.
 /// Equivalent to numpy.random.default_rng() but uses PCG64DXSM.
-- 
2.43.0


From 897c59fed336d26278a38c918e5b01df90ccee81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:26 +0000
Subject: [PATCH 03/72] fix: refuse shapes whose byte size overflows instead of
 panicking

---
 src/python/pyarray/mod.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 1cbc113..f8f027d 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -30,18 +30,23 @@ fn py_refcount_ptr(ptr: *mut pyo3::ffi::PyObject) -> isize {
 
 /// Parse shape from int, tuple, or list.
 pub fn parse_shape(obj: &Bound<'_, PyAny>) -> PyResult<Vec<usize>> {
-    if let Ok(n) = obj.extract::<usize>() {
-        return Ok(vec![n]);
-    }
-    if let Ok(tuple) = obj.downcast::<PyTuple>() {
-        return tuple.iter().map(|x| x.extract::<usize>()).collect();
-    }
-    if let Ok(list) = obj.downcast::<PyList>() {
-        return list.iter().map(|x| x.extract::<usize>()).collect();
+    let shape = if let Ok(n) = obj.extract::<usize>() {
+        vec![n]
+    } else if let Ok(tuple) = obj.downcast::<PyTuple>() {
+        tuple.iter().map(|x| x.extract::<usize>()).collect::<PyResult<_>>()?
+    } else if let Ok(list) = obj.downcast::<PyList>() {
+        list.iter().map(|x| x.extract::<usize>()).collect::<PyResult<_>>()?
+    } else {
+        return Err(pyo3::exceptions::PyTypeError::new_err(
+            "shape must be an int, tuple, or list",
+        ));
+    };
+    // The byte size (at most 16 bytes per element) must be representable.
+    let bytes = shape.iter().filter(|&&n| n != 0).try_fold(16usize, |acc, &n| acc.checked_mul(n));
+    if bytes.is_none_or(|b| b > isize::MAX as usize) {
+        return Err(pyo3::exceptions::PyValueError::new_err("array is too big"));
     }
-    Err(pyo3::exceptions::PyTypeError::new_err(
-        "shape must be an int, tuple, or list",
-    ))
+    Ok(shape)
 }
 
 /// Parse reshape arguments: handles reshape(3, 4), reshape((3, 4)), reshape([3, 4]).
-- 
2.43.0


From e65cb524833d8b4334a2a9d375c813bbf6f0f748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:59 +0000
Subject: [PATCH 04/72] fix: unseeded generators differ even when the clock
 does not advance

---
 src/python/random.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/python/random.rs b/src/python/random.rs
index 4525882..a70160a 100644
--- a/src/python/random.rs
+++ b/src/python/random.rs
@@ -2,6 +2,7 @@
 
 use pyo3::prelude::*;
 use rand_core::RngCore;
+use std::hash::BuildHasher;
 use std::sync::Mutex;
 
 use crate::array::{DType, RumpyArray};
@@ -32,11 +33,13 @@ impl PyGenerator {
     #[pyo3(signature = (seed=None))]
     fn new(seed: Option<u64>) -> Self {
         let seed = seed.unwrap_or_else(|| {
-            // Use system time as default seed
-            std::time::SystemTime::now()
+            // Mix the system time with std's per-instance random hash keys: the clock alone
+            // repeats when it is coarse, stalled or set back.
+            let nanos = std::time::SystemTime::now()
                 .duration_since(std::time::UNIX_EPOCH)
                 .map(|d| d.as_nanos() as u64)
-                .unwrap_or(0)
+                .unwrap_or(0);
+            std::hash::RandomState::new().hash_one(nanos)
         });
         Self {
             inner: Mutex::new(Generator::new(seed)),
-- 
2.43.0


From 7bb80952da7254cd42d6aed9b26d45b971fff026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:40 +0000
Subject: [PATCH 05/72] fix: slice negative-stride views from their own start

The offset used the stride's absolute value, so slicing or flipping a reversed
view addressed memory outside the buffer.
---
 src/array/views.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index abc7479..3d9c584 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 
 impl RumpyArray {
     /// Create a view with new offset, shape, and strides, sharing the buffer.
-    pub fn view_with(&self, offset_delta: usize, shape: Vec<usize>, strides: Vec<isize>) -> Self {
+    pub fn view_with(&self, offset_delta: isize, shape: Vec<usize>, strides: Vec<isize>) -> Self {
         let mut flags = ArrayFlags::WRITEABLE;
         if is_c_contiguous(&shape, &strides, self.dtype.itemsize()) {
             flags |= ArrayFlags::C_CONTIGUOUS;
@@ -17,7 +17,7 @@ impl RumpyArray {
 
         Self {
             buffer: Arc::clone(&self.buffer),
-            offset: self.offset + offset_delta,
+            offset: (self.offset as isize + offset_delta) as usize,
             shape,
             strides,
             dtype: self.dtype.clone(),
@@ -68,9 +68,10 @@ impl RumpyArray {
         };
         let new_len = new_len.max(0) as usize;
 
-        // Compute offset delta (bytes to skip to reach start element)
+        // Compute offset delta (bytes to skip to reach start element).
+        // An empty slice has no start element.
         let old_stride = self.strides[axis];
-        let offset_delta = (start as usize) * (old_stride.unsigned_abs());
+        let offset_delta = if new_len == 0 { 0 } else { start * old_stride };
 
         // New stride = old_stride * step
         let mut new_strides = self.strides.clone();
@@ -249,13 +250,9 @@ impl RumpyArray {
 
         // Handle case where we're extracting a scalar (empty core dims)
         if core_shape.is_empty() {
-            return self.view_with(
-                offset_delta.max(0) as usize,
-                vec![1],
-                vec![self.itemsize() as isize],
-            );
+            return self.view_with(offset_delta, vec![1], vec![self.itemsize() as isize]);
         }
 
-        self.view_with(offset_delta.max(0) as usize, core_shape, core_strides)
+        self.view_with(offset_delta, core_shape, core_strides)
     }
 }
-- 
2.43.0


From 0ce9f55928978c70d8c90087adcbe7b88c45559b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:08 +0000
Subject: [PATCH 06/72] fix: out-of-range indices raise IndexError, tuple
 slices clamp like slice.indices

Integer indices were not checked, and a[i] past the end read outside the buffer;
slices inside a tuple used their own clamping, which was wrong for negative steps.
---
 src/python/pyarray/dunder_item.rs | 30 ++++++-------
 src/python/pyarray/mod.rs         | 71 +++++++++++--------------------
 2 files changed, 39 insertions(+), 62 deletions(-)

diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index d374e11..7843dd6 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -4,7 +4,7 @@ use pyo3::prelude::*;
 use pyo3::types::{PyEllipsis, PyList, PySlice, PyTuple};
 
 use super::{
-    expand_ellipsis, extract_slice_indices, fill_view, normalize_index, normalize_slice,
+    expand_ellipsis, extract_slice_indices, fill_view, first_axis_len, normalize_index,
     IndexItem, PyRumpyArray,
 };
 use crate::array::RumpyArray;
@@ -103,7 +103,7 @@ impl PyRumpyArray {
                             unreachable!()
                         }
                     })
-                    .collect();
+                    .collect::<PyResult<_>>()?;
                 let val = self.inner.get_element(&indices);
                 return Ok(val.into_pyobject(py)?.into_any().unbind());
             }
@@ -127,22 +127,23 @@ impl PyRumpyArray {
                                 "too many indices for array",
                             ));
                         }
-                        let idx = normalize_index(*idx, result.shape()[axis]);
+                        let idx = normalize_index(*idx, result.shape()[axis])?;
                         result = result.slice_axis(axis, idx as isize, idx as isize + 1, 1);
                         squeeze_axes.push(axis);
                         axis += 1;
                     }
-                    IndexItem::Slice(start, stop, step) => {
+                    IndexItem::Slice(slice) => {
                         if axis >= result.ndim() {
                             return Err(pyo3::exceptions::PyIndexError::new_err(
                                 "too many indices for array",
                             ));
                         }
-                        let len = result.shape()[axis] as isize;
-                        let (norm_start, norm_stop) = normalize_slice(*start, *stop, *step, len);
-                        result = result.slice_axis(axis, norm_start, norm_stop, *step);
+                        let (start, stop, step) =
+                            extract_slice_indices(slice, result.shape()[axis])?;
+                        result = result.slice_axis(axis, start, stop, step);
                         axis += 1;
                     }
+                    IndexItem::FullSlice => axis += 1,
                 }
             }
 
@@ -156,7 +157,7 @@ impl PyRumpyArray {
 
         // Handle single integer index
         if let Ok(idx) = key.extract::<isize>() {
-            let idx = normalize_index(idx, self.inner.shape()[0]);
+            let idx = normalize_index(idx, first_axis_len(&self.inner)?)?;
             let result = self.inner.slice_axis(0, idx as isize, idx as isize + 1, 1);
             let result = result.squeeze_axis(0);
             return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
@@ -164,7 +165,7 @@ impl PyRumpyArray {
 
         // Handle single slice
         if let Ok(slice) = key.downcast::<PySlice>() {
-            let (start, stop, step) = extract_slice_indices(slice, self.inner.shape()[0])?;
+            let (start, stop, step) = extract_slice_indices(slice, first_axis_len(&self.inner)?)?;
             let result = self.inner.slice_axis(0, start, stop, step);
             return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
         }
@@ -191,10 +192,9 @@ impl PyRumpyArray {
                     .iter()
                     .enumerate()
                     .map(|(axis, item)| {
-                        let idx: isize = item.extract().unwrap();
-                        normalize_index(idx, self.inner.shape()[axis])
+                        normalize_index(item.extract()?, self.inner.shape()[axis])
                     })
-                    .collect();
+                    .collect::<PyResult<_>>()?;
 
                 if let Some(scalar) = value_scalar {
                     self.inner.set_element(&indices, scalar);
@@ -217,7 +217,7 @@ impl PyRumpyArray {
                     ));
                 }
                 if let Ok(idx) = item.extract::<isize>() {
-                    let idx = normalize_index(idx, view.shape()[axis]);
+                    let idx = normalize_index(idx, view.shape()[axis])?;
                     view = view.slice_axis(axis, idx as isize, idx as isize + 1, 1);
                     axis += 1;
                 } else if let Ok(slice) = item.downcast::<PySlice>() {
@@ -236,7 +236,7 @@ impl PyRumpyArray {
 
         // Handle single integer index (row assignment for 2D+, or single element for 1D)
         if let Ok(idx) = key.extract::<isize>() {
-            let idx = normalize_index(idx, self.inner.shape()[0]);
+            let idx = normalize_index(idx, first_axis_len(&self.inner)?)?;
 
             if self.inner.ndim() == 1 {
                 // Single element in 1D array
@@ -257,7 +257,7 @@ impl PyRumpyArray {
 
         // Handle single slice
         if let Ok(slice) = key.downcast::<PySlice>() {
-            let (start, stop, step) = extract_slice_indices(slice, self.inner.shape()[0])?;
+            let (start, stop, step) = extract_slice_indices(slice, first_axis_len(&self.inner)?)?;
             let mut view = self.inner.slice_axis(0, start, stop, step);
             return fill_view(&mut view, value_scalar, value_array.as_deref());
         }
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index f8f027d..a4ed558 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -984,12 +984,22 @@ fn extract_slice_indices(
 }
 
 /// Normalize a negative index to positive.
-fn normalize_index(idx: isize, len: usize) -> usize {
-    if idx < 0 {
-        (len as isize + idx) as usize
-    } else {
-        idx as usize
-    }
+fn normalize_index(idx: isize, len: usize) -> PyResult<usize> {
+    let n = len as isize;
+    if idx < -n || idx >= n {
+        return Err(pyo3::exceptions::PyIndexError::new_err(format!(
+            "index {} is out of bounds for axis with size {}",
+            idx, len
+        )));
+    }
+    Ok(if idx < 0 { idx + n } else { idx } as usize)
+}
+
+/// Length of the first axis, which single (non-tuple) indices refer to.
+fn first_axis_len(arr: &RumpyArray) -> PyResult<usize> {
+    arr.shape().first().copied().ok_or_else(|| {
+        pyo3::exceptions::PyIndexError::new_err("too many indices for array")
+    })
 }
 
 /// Resolve a potentially negative axis to a positive index.
@@ -1040,37 +1050,18 @@ fn extract_f64_vec(obj: &Bound<'_, PyAny>, name: &str) -> PyResult<Vec<f64>> {
     }
 }
 
-/// Normalize slice start/stop values with proper defaults and clamping.
-fn normalize_slice(start: isize, stop: isize, step: isize, len: isize) -> (isize, isize) {
-    let (default_start, default_stop) = if step > 0 {
-        (0, len)
-    } else {
-        (len - 1, -len - 1)
-    };
-
-    // Apply defaults for sentinel values
-    let start = if start == isize::MIN { default_start } else { start };
-    let stop = if stop == isize::MAX { default_stop } else { stop };
-
-    // Normalize negative indices
-    let start = if start < 0 { (start + len).max(0) } else { start.min(len) };
-    let stop = if stop < 0 { (stop + len).max(-1) } else { stop.min(len) };
-
-    (start, stop)
-}
-
 /// Represents an indexing item after ellipsis expansion.
-#[derive(Clone, Debug)]
-enum IndexItem {
+enum IndexItem<'py> {
     NewAxis,
     Int(isize),
-    Slice(isize, isize, isize), // start, stop, step
+    Slice(Bound<'py, PySlice>),
+    FullSlice,
 }
 
 /// Expand ellipsis in a tuple of indices.
 /// Returns a Vec of IndexItem representing each axis operation.
-fn expand_ellipsis(tuple: &Bound<'_, PyTuple>, ndim: usize) -> PyResult<Vec<IndexItem>> {
-    let mut items: Vec<IndexItem> = Vec::new();
+fn expand_ellipsis<'py>(tuple: &Bound<'py, PyTuple>, ndim: usize) -> PyResult<Vec<IndexItem<'py>>> {
+    let mut items: Vec<IndexItem<'py>> = Vec::new();
     let mut ellipsis_pos: Option<usize> = None;
     let mut explicit_axis_count = 0usize;
 
@@ -1107,29 +1098,15 @@ fn expand_ellipsis(tuple: &Bound<'_, PyTuple>, ndim: usize) -> PyResult<Vec<Inde
         if item.downcast::<PyEllipsis>().is_ok() {
             // Expand ellipsis to full slices
             for _ in 0..ellipsis_axes {
-                items.push(IndexItem::Slice(0, isize::MAX, 1)); // Will be clipped by slice_axis
+                items.push(IndexItem::FullSlice);
             }
         } else if item.is_none() {
             items.push(IndexItem::NewAxis);
         } else if let Ok(idx) = item.extract::<isize>() {
             items.push(IndexItem::Int(idx));
         } else if let Ok(slice) = item.downcast::<PySlice>() {
-            // We'll extract proper indices later when we know the axis size
-            // For now, store special marker values
-            let start = slice.getattr("start").ok()
-                .and_then(|v| if v.is_none() { None } else { v.extract::<isize>().ok() });
-            let stop = slice.getattr("stop").ok()
-                .and_then(|v| if v.is_none() { None } else { v.extract::<isize>().ok() });
-            let step = slice.getattr("step").ok()
-                .and_then(|v| if v.is_none() { None } else { v.extract::<isize>().ok() })
-                .unwrap_or(1);
-
-            // Use sentinel values that will be processed during application
-            items.push(IndexItem::Slice(
-                start.unwrap_or(isize::MIN),
-                stop.unwrap_or(isize::MAX),
-                step
-            ));
+            // Resolved against the axis length when applied
+            items.push(IndexItem::Slice(slice.clone()));
         } else {
             return Err(pyo3::exceptions::PyTypeError::new_err(
                 "indices must be integers, slices, ellipsis, or None",
-- 
2.43.0


From 559a57a81d511db54929fed5933d91f52f7226de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:47 +0000
Subject: [PATCH 07/72] fix: save Fortran-ordered arrays in the order the
 header declares

---
 src/ops/io.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops/io.rs b/src/ops/io.rs
index 5e70630..7453a43 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -435,8 +435,8 @@ pub fn write_npy<W: Write>(writer: &mut W, arr: &RumpyArray) -> Result<(), Strin
         writer.write_all(&padding).map_err(|e| e.to_string())?;
     }
 
-    // Write data - need contiguous array
-    let contiguous = if arr.is_c_contiguous() {
+    // Write data in the declared order - need contiguous array
+    let contiguous = if arr.is_c_contiguous() || fortran_order {
         arr.clone()
     } else {
         arr.copy()
-- 
2.43.0


From f1f105b79a83455d081d1977aabcd67a37f46e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:47 +0000
Subject: [PATCH 08/72] fix: keep .npy suffixes that are part of an array's
 name in a .npz file

---
 src/ops/io.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ops/io.rs b/src/ops/io.rs
index 7453a43..7b6faf7 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -889,9 +889,9 @@ pub fn load_npz(path: &Path) -> Result<Vec<(String, RumpyArray)>, String> {
             .map_err(|e| format!("Failed to read archive entry: {}", e))?;
 
         let name = file.name().to_string();
-        if !name.ends_with(".npy") {
+        let Some(array_name) = name.strip_suffix(".npy").map(str::to_string) else {
             continue;
-        }
+        };
 
         // Read all data into memory first
         let mut data = Vec::new();
@@ -902,8 +902,6 @@ pub fn load_npz(path: &Path) -> Result<Vec<(String, RumpyArray)>, String> {
         let mut cursor = std::io::Cursor::new(data);
         let arr = read_npy(&mut cursor)?;
 
-        // Extract name without .npy extension
-        let array_name = name.trim_end_matches(".npy").to_string();
         results.push((array_name, arr));
     }
 
-- 
2.43.0


From 7a63a3d0b1e6c9233aee9296a8d3c1790f8b111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:57 +0000
Subject: [PATCH 09/72] fix: writing .npz files survives interrupted writes

The deflate encoder passes EINTR through when it finishes a stream; buffer its
output, which retries and also flushes explicitly before reporting success.
---
 src/ops/io.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ops/io.rs b/src/ops/io.rs
index 7b6faf7..a6e9e6a 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -853,7 +853,9 @@ pub fn savez_compressed(path: &Path, arrays: &[(&str, &RumpyArray)]) -> Result<(
 
 fn savez_impl(path: &Path, arrays: &[(&str, &RumpyArray)], compressed: bool) -> Result<(), String> {
     let file = File::create(path).map_err(|e| format!("Failed to create file: {}", e))?;
-    let mut zip = zip::ZipWriter::new(file);
+    // Larger than the deflate encoder's buffer, so that its writes are always buffered:
+    // BufWriter retries interrupted writes, the encoder does not.
+    let mut zip = zip::ZipWriter::new(BufWriter::with_capacity(1 << 16, file));
 
     let options = if compressed {
         zip::write::SimpleFileOptions::default()
@@ -871,7 +873,8 @@ fn savez_impl(path: &Path, arrays: &[(&str, &RumpyArray)], compressed: bool) ->
         write_npy(&mut zip, arr)?;
     }
 
-    zip.finish().map_err(|e| format!("Failed to finish zip: {}", e))?;
+    let mut writer = zip.finish().map_err(|e| format!("Failed to finish zip: {}", e))?;
+    writer.flush().map_err(|e| e.to_string())?;
     Ok(())
 }
 
-- 
2.43.0


From 8f330214039f2a391fda789f2821d4642e768ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:45 +0000
Subject: [PATCH 10/72] fix: refuse .npy files with string element types
 instead of loading empty strings

---
 src/ops/io.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ops/io.rs b/src/ops/io.rs
index a6e9e6a..44f1b1b 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -545,7 +545,9 @@ fn parse_npy_header(header: &str) -> Result<(DType, Vec<usize>, bool), String> {
     let descr = extract_string_value(header, "descr")?;
     let dtype = descr
         .parse::<DType>()
-        .map_err(|_| format!("Unsupported dtype: {}", descr))?;
+        .ok()
+        .filter(|dtype| dtype.itemsize() > 0) // strings have no element layout here
+        .ok_or_else(|| format!("Unsupported dtype: {}", descr))?;
 
     // Extract fortran_order
     let fortran_order = extract_bool_value(header, "fortran_order")?;
-- 
2.43.0


From 03c51e8b709bc33f11c4f31a7209cf91d4f0ae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:03 +0000
Subject: [PATCH 11/72] fix: damaged .npy headers are refused instead of
 aborting the process

---
 src/array/buffer.rs |  7 +++++++
 src/ops/io.rs       | 49 ++++++++++++++++++++++++---------------------
 2 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/src/array/buffer.rs b/src/array/buffer.rs
index 1a3751c..f69d482 100644
--- a/src/array/buffer.rs
+++ b/src/array/buffer.rs
@@ -11,6 +11,13 @@ impl ArrayBuffer {
         }
     }
 
+    /// Create a buffer holding the given bytes.
+    pub fn from_vec(data: Vec<u8>) -> Self {
+        Self {
+            data: data.into_boxed_slice(),
+        }
+    }
+
     /// Get raw pointer to buffer data.
     pub fn as_ptr(&self) -> *const u8 {
         self.data.as_ptr()
diff --git a/src/ops/io.rs b/src/ops/io.rs
index 44f1b1b..7564bb0 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -490,10 +490,8 @@ pub fn read_npy<R: Read>(reader: &mut R) -> Result<RumpyArray, String> {
     };
 
     // Read header
-    let mut header_bytes = vec![0u8; header_len];
-    reader
-        .read_exact(&mut header_bytes)
-        .map_err(|e| format!("Failed to read header: {}", e))?;
+    let header_bytes =
+        read_claimed(reader, header_len).map_err(|e| format!("Failed to read header: {}", e))?;
 
     let header =
         String::from_utf8(header_bytes).map_err(|_| "Header is not valid UTF-8".to_string())?;
@@ -502,15 +500,16 @@ pub fn read_npy<R: Read>(reader: &mut R) -> Result<RumpyArray, String> {
     let (dtype, shape, fortran_order) = parse_npy_header(&header)?;
 
     // Create array and read data
-    let size: usize = shape.iter().product();
-    let nbytes = size * dtype.itemsize();
+    let span = shape
+        .iter()
+        .filter(|&&d| d > 0)
+        .try_fold(dtype.itemsize(), |acc, &d| acc.checked_mul(d))
+        .filter(|&n| n <= isize::MAX as usize)
+        .ok_or_else(|| format!("Invalid shape in header: {:?}", shape))?;
+    let nbytes = if shape.contains(&0) { 0 } else { span };
 
-    let mut buffer = ArrayBuffer::new(nbytes);
-    let buf_ptr = buffer.as_mut_ptr();
-    let buf_slice = unsafe { std::slice::from_raw_parts_mut(buf_ptr, nbytes) };
-    reader
-        .read_exact(buf_slice)
-        .map_err(|e| format!("Failed to read data: {}", e))?;
+    let data = read_claimed(reader, nbytes).map_err(|e| format!("Failed to read data: {}", e))?;
+    let buffer = ArrayBuffer::from_vec(data);
 
     // Compute strides based on fortran_order
     let strides = if fortran_order {
@@ -537,6 +536,17 @@ pub fn read_npy<R: Read>(reader: &mut R) -> Result<RumpyArray, String> {
     })
 }
 
+/// Read exactly `len` bytes, a length the file claims: memory grows with what is actually
+/// there, so a damaged length is an error and not a huge allocation.
+fn read_claimed<R: Read>(reader: &mut R, len: usize) -> std::io::Result<Vec<u8>> {
+    let mut data = Vec::new();
+    reader.take(len as u64).read_to_end(&mut data)?;
+    if data.len() < len {
+        return Err(std::io::ErrorKind::UnexpectedEof.into());
+    }
+    Ok(data)
+}
+
 /// Parse NPY header dictionary.
 fn parse_npy_header(header: &str) -> Result<(DType, Vec<usize>, bool), String> {
     let header = header.trim();
@@ -618,19 +628,12 @@ fn extract_shape(header: &str) -> Result<Vec<usize>, String> {
                 let shape_str = &rest[..end];
 
                 // Parse shape values
-                let shape: Vec<usize> = shape_str
+                return shape_str
                     .split(',')
-                    .filter_map(|s| {
-                        let trimmed = s.trim();
-                        if trimmed.is_empty() {
-                            None
-                        } else {
-                            trimmed.parse().ok()
-                        }
-                    })
+                    .map(str::trim)
+                    .filter(|s| !s.is_empty())
+                    .map(|s| s.parse().map_err(|_| format!("Invalid shape in header: {}", s)))
                     .collect();
-
-                return Ok(shape);
             }
         }
     }
-- 
2.43.0


From c091980f1aa8d5bc991c04cf8f076fd87dc028ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:21 +0000
Subject: [PATCH 12/72] fix: a storage error while writing a .npz file is an
 ordinary exception

---
 src/ops/io.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/ops/io.rs b/src/ops/io.rs
index 7564bb0..38e087b 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -857,10 +857,9 @@ pub fn savez_compressed(path: &Path, arrays: &[(&str, &RumpyArray)]) -> Result<(
 }
 
 fn savez_impl(path: &Path, arrays: &[(&str, &RumpyArray)], compressed: bool) -> Result<(), String> {
-    let file = File::create(path).map_err(|e| format!("Failed to create file: {}", e))?;
-    // Larger than the deflate encoder's buffer, so that its writes are always buffered:
-    // BufWriter retries interrupted writes, the encoder does not.
-    let mut zip = zip::ZipWriter::new(BufWriter::with_capacity(1 << 16, file));
+    let mut file = File::create(path).map_err(|e| format!("Failed to create file: {}", e))?;
+    // The archive is put together in memory: a ZipWriter panics when its sink fails.
+    let mut zip = zip::ZipWriter::new(std::io::Cursor::new(Vec::new()));
 
     let options = if compressed {
         zip::write::SimpleFileOptions::default()
@@ -878,9 +877,8 @@ fn savez_impl(path: &Path, arrays: &[(&str, &RumpyArray)], compressed: bool) ->
         write_npy(&mut zip, arr)?;
     }
 
-    let mut writer = zip.finish().map_err(|e| format!("Failed to finish zip: {}", e))?;
-    writer.flush().map_err(|e| e.to_string())?;
-    Ok(())
+    let archive = zip.finish().map_err(|e| format!("Failed to finish zip: {}", e))?;
+    file.write_all(archive.get_ref()).map_err(|e| e.to_string())
 }
 
 /// Load arrays from a .npz file.
-- 
2.43.0


From 5d50cdbefa5504ac1b76eb2670f432b5e9447a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:59 +0000
Subject: [PATCH 13/72] fix: text readers report missing columns and unreadable
 numbers instead of dropping them

---
 src/ops/io.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/ops/io.rs b/src/ops/io.rs
index 38e087b..f653b53 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -58,8 +58,12 @@ pub fn loadtxt(
         // Select columns
         let selected: Vec<&str> = if let Some(cols) = usecols {
             cols.iter()
-                .filter_map(|&i| values.get(i).copied())
-                .collect()
+                .map(|&i| {
+                    values.get(i).copied().ok_or_else(|| {
+                        format!("Line {} has no column {}", line_num + 1, i)
+                    })
+                })
+                .collect::<Result<_, _>>()?
         } else {
             values
         };
@@ -314,8 +318,12 @@ pub fn genfromtxt(
         // Select columns
         let selected: Vec<&str> = if let Some(cols) = usecols {
             cols.iter()
-                .filter_map(|&i| values.get(i).copied())
-                .collect()
+                .map(|&i| {
+                    values.get(i).copied().ok_or_else(|| {
+                        format!("Line {} has no column {}", line_num + 1, i)
+                    })
+                })
+                .collect::<Result<_, _>>()?
         } else {
             values
         };
@@ -773,17 +781,12 @@ fn fromfile_text(path: &Path, dtype: DType, count: isize, sep: &str) -> Result<R
     let content =
         std::fs::read_to_string(path).map_err(|e| format!("Failed to read file: {}", e))?;
 
-    let values: Vec<f64> = content
+    let values = content
         .split(sep)
-        .filter_map(|s| {
-            let trimmed = s.trim();
-            if trimmed.is_empty() {
-                None
-            } else {
-                trimmed.parse().ok()
-            }
-        })
-        .collect();
+        .map(str::trim)
+        .filter(|s| !s.is_empty())
+        .map(|s| s.parse().map_err(|_| format!("Cannot parse '{}' as number", s)))
+        .collect::<Result<Vec<f64>, String>>()?;
 
     let n = if count < 0 {
         values.len()
-- 
2.43.0


From 53d2faed985b0c842191cc27328b0615a4cee687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:15 +0000
Subject: [PATCH 14/72] fix: reading raw bytes as a string dtype is an error,
 not a division by zero

---
 src/ops/io.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ops/io.rs b/src/ops/io.rs
index f653b53..4af3fae 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -671,9 +671,17 @@ fn compute_f_strides(shape: &[usize], itemsize: usize) -> Vec<isize> {
     strides
 }
 
+/// Element size of a dtype that raw bytes can be read as.
+fn fixed_itemsize(dtype: &DType) -> Result<usize, String> {
+    match dtype.itemsize() {
+        0 => Err(format!("Cannot read raw bytes as dtype {}", dtype.ops().name())),
+        n => Ok(n),
+    }
+}
+
 /// Create array from raw bytes buffer.
 pub fn frombuffer(data: &[u8], dtype: DType, count: isize, offset: usize) -> Result<RumpyArray, String> {
-    let itemsize = dtype.itemsize();
+    let itemsize = fixed_itemsize(&dtype)?;
     let available_bytes = data.len().saturating_sub(offset);
     let max_elements = available_bytes / itemsize;
 
@@ -734,7 +742,7 @@ pub fn fromfile(
             .map_err(|e| format!("Failed to seek: {}", e))?;
     }
 
-    let itemsize = dtype.itemsize();
+    let itemsize = fixed_itemsize(&dtype)?;
 
     // Determine count
     let file_size = file
-- 
2.43.0


From 2568147de2fb96ac7453393b08fe43610f43a8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:44 +0000
Subject: [PATCH 15/72] fix: text writers refuse complex arrays instead of
 writing zeros

---
 src/ops/io.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ops/io.rs b/src/ops/io.rs
index 4af3fae..3dbdf35 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -118,6 +118,7 @@ pub fn savetxt(
     fmt: &str,
     comments: &str,
 ) -> Result<(), String> {
+    check_text_dtype(arr)?;
     let file = File::create(path).map_err(|e| format!("Failed to create file: {}", e))?;
     let mut writer = BufWriter::new(file);
 
@@ -214,6 +215,16 @@ pub fn savetxt(
     Ok(())
 }
 
+/// Text output goes through f64: refuse elements that have no such value (complex, strings).
+fn check_text_dtype(arr: &RumpyArray) -> Result<(), String> {
+    let dtype = arr.dtype();
+    let ops = dtype.ops();
+    if arr.size() > 0 && unsafe { ops.read_f64(arr.data_ptr(), 0) }.is_none() {
+        return Err(format!("Cannot write dtype {} as text", ops.name()));
+    }
+    Ok(())
+}
+
 /// Format a value using a format string.
 fn format_value(val: f64, fmt: &str) -> String {
     if fmt.is_empty() || fmt == "%.18e" {
@@ -808,6 +819,9 @@ fn fromfile_text(path: &Path, dtype: DType, count: isize, sep: &str) -> Result<R
 
 /// Write array to binary file.
 pub fn tofile(arr: &RumpyArray, path: &Path, sep: &str, format: &str) -> Result<(), String> {
+    if !sep.is_empty() {
+        check_text_dtype(arr)?;
+    }
     let file = File::create(path).map_err(|e| format!("Failed to create file: {}", e))?;
     let mut writer = BufWriter::new(file);
 
-- 
2.43.0


From c6f253db9c5e46b2752ba58ac268351abba7d604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:30 +0000
Subject: [PATCH 16/72] fix: exported and saved string arrays carry their
 element length

---
 src/array/dtype/mod.rs | 10 ++++++++--
 src/ops/io.rs          |  6 ++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/array/dtype/mod.rs b/src/array/dtype/mod.rs
index 7c56589..98452b0 100644
--- a/src/array/dtype/mod.rs
+++ b/src/array/dtype/mod.rs
@@ -411,8 +411,14 @@ impl DType {
     #[inline]
     pub fn itemsize(&self) -> usize { self.0.itemsize() }
 
-    #[inline]
-    pub fn typestr(&self) -> &'static str { self.0.typestr() }
+    /// Array-interface type string, with the element length for string types.
+    pub fn typestr(&self) -> String {
+        match self.kind() {
+            DTypeKind::Str(n) => format!("<U{}", n),
+            DTypeKind::Bytes(n) => format!("|S{}", n),
+            _ => self.0.typestr().to_string(),
+        }
+    }
 
     #[inline]
     pub fn format_char(&self) -> &'static str { self.0.format_char() }
diff --git a/src/ops/io.rs b/src/ops/io.rs
index 3dbdf35..cd1e34a 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -398,7 +398,7 @@ pub fn save_npy(path: &Path, arr: &RumpyArray) -> Result<(), String> {
 /// Write array in NPY format to a writer.
 pub fn write_npy<W: Write>(writer: &mut W, arr: &RumpyArray) -> Result<(), String> {
     // Build header dictionary
-    let descr = arr.dtype().ops().typestr();
+    let descr = arr.dtype().typestr();
     let fortran_order = arr.is_f_contiguous() && !arr.is_c_contiguous();
     let shape_str = format!(
         "({}{})",
@@ -574,9 +574,7 @@ fn parse_npy_header(header: &str) -> Result<(DType, Vec<usize>, bool), String> {
     let descr = extract_string_value(header, "descr")?;
     let dtype = descr
         .parse::<DType>()
-        .ok()
-        .filter(|dtype| dtype.itemsize() > 0) // strings have no element layout here
-        .ok_or_else(|| format!("Unsupported dtype: {}", descr))?;
+        .map_err(|_| format!("Unsupported dtype: {}", descr))?;
 
     // Extract fortran_order
     let fortran_order = extract_bool_value(header, "fortran_order")?;
-- 
2.43.0


From 889c0344a4ba4605b7bb371fc6e1388326034a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:07 +0000
Subject: [PATCH 17/72] fix: big-endian data is refused instead of being read
 in the wrong byte order

---
 src/array/dtype/mod.rs | 40 ++++++++++++++++++++--------------------
 src/python/creation.rs |  9 ++++++++-
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/array/dtype/mod.rs b/src/array/dtype/mod.rs
index 98452b0..052af90 100644
--- a/src/array/dtype/mod.rs
+++ b/src/array/dtype/mod.rs
@@ -447,27 +447,27 @@ impl FromStr for DType {
             "uint64" | "u8" | "<u8" => Ok(Self::uint64()),
             "bool" | "?" | "|b1" => Ok(Self::bool()),
             // datetime64 - all units
-            "datetime64[Y]" | "<M8[Y]" | ">M8[Y]" => Ok(Self::datetime64_y()),
-            "datetime64[M]" | "<M8[M]" | ">M8[M]" => Ok(Self::datetime64_m()),
-            "datetime64[W]" | "<M8[W]" | ">M8[W]" => Ok(Self::datetime64_w()),
-            "datetime64[D]" | "<M8[D]" | ">M8[D]" => Ok(Self::datetime64_d()),
-            "datetime64[h]" | "<M8[h]" | ">M8[h]" => Ok(Self::datetime64_h()),
-            "datetime64[m]" | "<M8[m]" | ">M8[m]" => Ok(Self::datetime64_min()),
-            "datetime64[s]" | "<M8[s]" | ">M8[s]" => Ok(Self::datetime64_s()),
-            "datetime64[ms]" | "<M8[ms]" | ">M8[ms]" => Ok(Self::datetime64_ms()),
-            "datetime64[us]" | "<M8[us]" | ">M8[us]" => Ok(Self::datetime64_us()),
-            "datetime64[ns]" | "<M8[ns]" | ">M8[ns]" => Ok(Self::datetime64_ns()),
+            "datetime64[Y]" | "<M8[Y]" => Ok(Self::datetime64_y()),
+            "datetime64[M]" | "<M8[M]" => Ok(Self::datetime64_m()),
+            "datetime64[W]" | "<M8[W]" => Ok(Self::datetime64_w()),
+            "datetime64[D]" | "<M8[D]" => Ok(Self::datetime64_d()),
+            "datetime64[h]" | "<M8[h]" => Ok(Self::datetime64_h()),
+            "datetime64[m]" | "<M8[m]" => Ok(Self::datetime64_min()),
+            "datetime64[s]" | "<M8[s]" => Ok(Self::datetime64_s()),
+            "datetime64[ms]" | "<M8[ms]" => Ok(Self::datetime64_ms()),
+            "datetime64[us]" | "<M8[us]" => Ok(Self::datetime64_us()),
+            "datetime64[ns]" | "<M8[ns]" => Ok(Self::datetime64_ns()),
             // timedelta64 - all units
-            "timedelta64[Y]" | "<m8[Y]" | ">m8[Y]" => Ok(Self::timedelta64_y()),
-            "timedelta64[M]" | "<m8[M]" | ">m8[M]" => Ok(Self::timedelta64_m()),
-            "timedelta64[W]" | "<m8[W]" | ">m8[W]" => Ok(Self::timedelta64_w()),
-            "timedelta64[D]" | "<m8[D]" | ">m8[D]" => Ok(Self::timedelta64_d()),
-            "timedelta64[h]" | "<m8[h]" | ">m8[h]" => Ok(Self::timedelta64_h()),
-            "timedelta64[m]" | "<m8[m]" | ">m8[m]" => Ok(Self::timedelta64_min()),
-            "timedelta64[s]" | "<m8[s]" | ">m8[s]" => Ok(Self::timedelta64_s()),
-            "timedelta64[ms]" | "<m8[ms]" | ">m8[ms]" => Ok(Self::timedelta64_ms()),
-            "timedelta64[us]" | "<m8[us]" | ">m8[us]" => Ok(Self::timedelta64_us()),
-            "timedelta64[ns]" | "<m8[ns]" | ">m8[ns]" => Ok(Self::timedelta64_ns()),
+            "timedelta64[Y]" | "<m8[Y]" => Ok(Self::timedelta64_y()),
+            "timedelta64[M]" | "<m8[M]" => Ok(Self::timedelta64_m()),
+            "timedelta64[W]" | "<m8[W]" => Ok(Self::timedelta64_w()),
+            "timedelta64[D]" | "<m8[D]" => Ok(Self::timedelta64_d()),
+            "timedelta64[h]" | "<m8[h]" => Ok(Self::timedelta64_h()),
+            "timedelta64[m]" | "<m8[m]" => Ok(Self::timedelta64_min()),
+            "timedelta64[s]" | "<m8[s]" => Ok(Self::timedelta64_s()),
+            "timedelta64[ms]" | "<m8[ms]" => Ok(Self::timedelta64_ms()),
+            "timedelta64[us]" | "<m8[us]" => Ok(Self::timedelta64_us()),
+            "timedelta64[ns]" | "<m8[ns]" => Ok(Self::timedelta64_ns()),
             "complex64" | "c8" | "<c8" => Ok(Self::complex64()),
             "complex128" | "c16" | "<c16" => Ok(Self::complex128()),
             "str" | "str_" => Ok(Self::str_(0)), // default to 0 (determined from data)
diff --git a/src/python/creation.rs b/src/python/creation.rs
index f8e5794..c20102b 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -676,6 +676,13 @@ fn flatten_nested_list_bytes(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>,
 fn dtype_from_typestr(typestr: &str) -> PyResult<DType> {
     use crate::array::dtype::TimeUnit;
 
+    if typestr.starts_with('>') {
+        return Err(pyo3::exceptions::PyValueError::new_err(format!(
+            "Unsupported byte order: {}",
+            typestr
+        )));
+    }
+
     // Handle datetime64: "<M8[ns]", "<M8[us]", etc.
     if typestr.starts_with("<M8[") || typestr.starts_with(">M8[") {
         // Extract unit from M8[unit]
@@ -731,7 +738,7 @@ fn dtype_from_typestr(typestr: &str) -> PyResult<DType> {
 
     // Format: "<f8" (little-endian float64), ">i4" (big-endian int32), etc.
     let kind = typestr.chars().nth(1).unwrap_or('f');
-    let size: usize = typestr[2..].parse().unwrap_or(8);
+    let size: usize = typestr.get(2..).and_then(|s| s.parse().ok()).unwrap_or(0);
 
     match (kind, size) {
         ('f', 8) => Ok(DType::float64()),
-- 
2.43.0


From 755fadac49d6a3e90afd41610933eaa2decb5d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:29 +0000
Subject: [PATCH 18/72] fix: item assignment writes exactly what it is given,
 also from overlapping sources

---
 src/array/mod.rs                  | 25 ++++++++++
 src/python/pyarray/dunder_item.rs | 58 ++++-------------------
 src/python/pyarray/mod.rs         | 76 +++++++++++++++++--------------
 3 files changed, 75 insertions(+), 84 deletions(-)

diff --git a/src/array/mod.rs b/src/array/mod.rs
index 2ccb842..d0455db 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -177,6 +177,31 @@ impl RumpyArray {
         }
     }
 
+    /// Copy the elements of `src`, broadcast to this array's shape, into this array's memory.
+    /// Views share their buffer, so this writes through `&self`; `src` may overlap.
+    /// Returns false if `src` does not broadcast to this shape.
+    pub fn assign(&self, src: &RumpyArray) -> bool {
+        // As in NumPy, leading axes of length 1 the destination does not have are ignored
+        let mut src = src.clone();
+        while src.ndim() > self.ndim() && src.shape[0] == 1 {
+            src = src.squeeze_axis(0);
+        }
+        if src.dtype != self.dtype || src.shares_buffer_with(self) {
+            src = src.astype(self.dtype());
+        }
+        let Some(src) = src.broadcast_to(&self.shape) else {
+            return false;
+        };
+        let itemsize = self.itemsize();
+        let (dst_ptr, src_ptr) = (self.data_ptr() as *mut u8, src.data_ptr());
+        for (dst_off, src_off) in self.iter_offsets().zip(src.iter_offsets()) {
+            unsafe {
+                std::ptr::copy_nonoverlapping(src_ptr.offset(src_off), dst_ptr.offset(dst_off), itemsize);
+            }
+        }
+        true
+    }
+
     /// Compute byte offset for given indices (relative to data_ptr, not buffer start).
     pub fn byte_offset_for(&self, indices: &[usize]) -> isize {
         let mut byte_offset: isize = 0;
diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index 7843dd6..f6f3635 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -176,37 +176,12 @@ impl PyRumpyArray {
     }
 
     /// Item assignment (slice or element).
-    fn __setitem__(&mut self, key: &Bound<'_, PyAny>, value: &Bound<'_, PyAny>) -> PyResult<()> {
-        // Extract value as scalar or array
-        let value_scalar = value.extract::<f64>().ok();
-        let value_array = value.extract::<PyRef<'_, PyRumpyArray>>().ok();
-
+    ///
+    /// Takes `&self`: the value may be this array or a view of it, and converting the value
+    /// may run Python code that uses this array.
+    fn __setitem__(&self, key: &Bound<'_, PyAny>, value: &Bound<'_, PyAny>) -> PyResult<()> {
         // Handle tuple for multi-dimensional indexing
         if let Ok(tuple) = key.downcast::<PyTuple>() {
-            // Check if all indices are integers (single element assignment)
-            let all_ints = tuple.iter().all(|item| item.extract::<isize>().is_ok());
-
-            if all_ints && tuple.len() == self.inner.ndim() {
-                // Single element assignment
-                let indices: Vec<usize> = tuple
-                    .iter()
-                    .enumerate()
-                    .map(|(axis, item)| {
-                        normalize_index(item.extract()?, self.inner.shape()[axis])
-                    })
-                    .collect::<PyResult<_>>()?;
-
-                if let Some(scalar) = value_scalar {
-                    self.inner.set_element(&indices, scalar);
-                    return Ok(());
-                } else {
-                    return Err(pyo3::exceptions::PyTypeError::new_err(
-                        "can only assign scalar to single element",
-                    ));
-                }
-            }
-
-            // Slice assignment - get view and fill
             let mut view = self.inner.clone();
             let mut axis = 0usize;
 
@@ -219,7 +194,7 @@ impl PyRumpyArray {
                 if let Ok(idx) = item.extract::<isize>() {
                     let idx = normalize_index(idx, view.shape()[axis])?;
                     view = view.slice_axis(axis, idx as isize, idx as isize + 1, 1);
-                    axis += 1;
+                    view = view.squeeze_axis(axis);
                 } else if let Ok(slice) = item.downcast::<PySlice>() {
                     let (start, stop, step) = extract_slice_indices(slice, view.shape()[axis])?;
                     view = view.slice_axis(axis, start, stop, step);
@@ -231,35 +206,20 @@ impl PyRumpyArray {
                 }
             }
 
-            return fill_view(&mut view, value_scalar, value_array.as_deref());
+            return fill_view(&view, value);
         }
 
         // Handle single integer index (row assignment for 2D+, or single element for 1D)
         if let Ok(idx) = key.extract::<isize>() {
             let idx = normalize_index(idx, first_axis_len(&self.inner)?)?;
-
-            if self.inner.ndim() == 1 {
-                // Single element in 1D array
-                if let Some(scalar) = value_scalar {
-                    self.inner.set_element(&[idx], scalar);
-                    return Ok(());
-                } else {
-                    return Err(pyo3::exceptions::PyTypeError::new_err(
-                        "can only assign scalar to single element",
-                    ));
-                }
-            } else {
-                // Row/slice assignment
-                let mut view = self.inner.slice_axis(0, idx as isize, idx as isize + 1, 1);
-                return fill_view(&mut view, value_scalar, value_array.as_deref());
-            }
+            let view = self.inner.slice_axis(0, idx as isize, idx as isize + 1, 1);
+            return fill_view(&view.squeeze_axis(0), value);
         }
 
         // Handle single slice
         if let Ok(slice) = key.downcast::<PySlice>() {
             let (start, stop, step) = extract_slice_indices(slice, first_axis_len(&self.inner)?)?;
-            let mut view = self.inner.slice_axis(0, start, stop, step);
-            return fill_view(&mut view, value_scalar, value_array.as_deref());
+            return fill_view(&self.inner.slice_axis(0, start, stop, step), value);
         }
 
         Err(pyo3::exceptions::PyTypeError::new_err(
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index a4ed558..26c20f1 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -10,9 +10,11 @@ mod dunder_ops;
 mod methods_reductions;
 
 use pyo3::prelude::*;
-use pyo3::types::{PyDict, PyEllipsis, PyList, PySlice, PyString, PyTuple};
+use pyo3::types::{
+    PyComplex, PyComplexMethods, PyDict, PyEllipsis, PyInt, PyList, PySlice, PyString, PyTuple,
+};
 
-use crate::array::{promote_dtype, DType, RumpyArray};
+use crate::array::{promote_dtype, DType, DTypeKind, RumpyArray};
 use crate::ops::{map_binary_op_inplace, BinaryOp, ComparisonOp};
 use super::dtype::normalize_dtype_string;
 
@@ -1117,45 +1119,49 @@ fn expand_ellipsis<'py>(tuple: &Bound<'py, PyTuple>, ndim: usize) -> PyResult<Ve
     Ok(items)
 }
 
-/// Fill a view with a scalar or array value.
-fn fill_view(
-    view: &mut RumpyArray,
-    scalar: Option<f64>,
-    array: Option<&PyRumpyArray>,
-) -> PyResult<()> {
-    use crate::array::increment_indices;
-
-    if let Some(val) = scalar {
-        // Fill with scalar
-        let mut indices = vec![0usize; view.ndim()];
-        let shape = view.shape().to_vec();
-        for _ in 0..view.size() {
-            view.set_element(&indices, val);
-            increment_indices(&mut indices, &shape);
-        }
-        Ok(())
-    } else if let Some(src) = array {
-        // Copy from array (shapes must match)
-        if view.shape() != src.inner.shape() {
-            return Err(pyo3::exceptions::PyValueError::new_err(
-                "could not broadcast input array to shape",
-            ));
-        }
-        let mut indices = vec![0usize; view.ndim()];
-        let shape = view.shape().to_vec();
-        for _ in 0..view.size() {
-            let val = src.inner.get_element(&indices);
-            view.set_element(&indices, val);
-            increment_indices(&mut indices, &shape);
-        }
+/// Assign a scalar or array value to the elements of a view.
+fn fill_view(view: &RumpyArray, value: &Bound<'_, PyAny>) -> PyResult<()> {
+    let src = match value.extract::<PyRef<'_, PyRumpyArray>>() {
+        Ok(arr) => arr.inner.clone(),
+        Err(_) => scalar_array(value, view.dtype())?,
+    };
+    if view.assign(&src) {
         Ok(())
     } else {
-        Err(pyo3::exceptions::PyTypeError::new_err(
-            "value must be a number or array",
+        Err(pyo3::exceptions::PyValueError::new_err(
+            "could not broadcast input array to shape",
         ))
     }
 }
 
+/// A one-element array of the given dtype holding a Python number.
+fn scalar_array(value: &Bound<'_, PyAny>, dtype: DType) -> PyResult<RumpyArray> {
+    const EXACT: u64 = 1 << 53; // integers up to here are exact as f64
+    let wide = matches!(dtype.kind(), DTypeKind::Int64 | DTypeKind::Uint64);
+    if wide && value.is_instance_of::<PyInt>() {
+        let bits = match value.extract::<i64>() {
+            Ok(v) if v.unsigned_abs() > EXACT => Some(v),
+            Ok(_) => None,
+            Err(_) => value.extract::<u64>().ok().map(|v| v as i64),
+        };
+        if let Some(bits) = bits {
+            return Ok(RumpyArray::from_vec_i64(vec![bits], dtype));
+        }
+    }
+    if matches!(dtype.kind(), DTypeKind::Complex64 | DTypeKind::Complex128) {
+        if let Ok(z) = value.downcast::<PyComplex>() {
+            return Ok(RumpyArray::full_complex(vec![1], z.real(), z.imag(), dtype));
+        }
+    }
+    match value.extract::<f64>() {
+        Ok(v) => Ok(RumpyArray::full(vec![1], v, dtype)),
+        Err(e) if e.is_instance_of::<pyo3::exceptions::PyTypeError>(value.py()) => Err(
+            pyo3::exceptions::PyTypeError::new_err("value must be a number or array"),
+        ),
+        Err(e) => Err(e),
+    }
+}
+
 /// Check if an array qualifies for temporary elision (in-place buffer reuse).
 ///
 /// Returns the array to use as output buffer if elision is possible.
-- 
2.43.0


From 8523e4a36498feaad74d89cdde31b87844a97059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:46 +0000
Subject: [PATCH 19/72] fix: sort() sorts the array's own memory instead of
 replacing its buffer

---
 src/python/pyarray/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 26c20f1..b32774b 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -493,9 +493,17 @@ impl PyRumpyArray {
 
     /// Sort array in-place.
     #[pyo3(signature = (axis=None))]
-    fn sort(&mut self, axis: Option<isize>) {
+    fn sort(&self, axis: Option<isize>) -> PyResult<()> {
+        if self.inner.ndim() == 0 {
+            return Err(pyo3::exceptions::PyValueError::new_err("cannot sort a 0-d array"));
+        }
         let ax = normalize_axis_option(axis, self.inner.ndim(), true);
-        self.inner = self.inner.sort(ax);
+        if let Some(ax) = ax {
+            check_axis(ax, self.inner.ndim())?;
+        }
+        // The memory may be shared with views and exported arrays: keep the buffer
+        self.inner.assign(&self.inner.sort(ax));
+        Ok(())
     }
 
     /// Find indices where elements should be inserted to maintain order.
-- 
2.43.0


From 8b52f0e6a9728b7c62c9f15ee4f1525f910fe78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:05 +0000
Subject: [PATCH 20/72] fix: reshape of non-C-contiguous arrays keeps the
 elements in C order

---
 src/array/views.rs        | 21 ++++++++-------------
 src/ops/einsum.rs         | 11 ++++++++++-
 src/python/pyarray/mod.rs |  4 +++-
 3 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index 3d9c584..f0d4693 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -1,7 +1,7 @@
 //! View operations: reshape, transpose, flip, slice_axis, broadcast_to, squeeze, expand_dims.
 
 use super::flags::ArrayFlags;
-use super::{compute_c_strides, compute_f_strides, is_c_contiguous, is_f_contiguous, RumpyArray};
+use super::{compute_c_strides, is_c_contiguous, is_f_contiguous, RumpyArray};
 use std::sync::Arc;
 
 impl RumpyArray {
@@ -83,24 +83,19 @@ impl RumpyArray {
         self.view_with(offset_delta, new_shape, new_strides)
     }
 
-    /// Reshape array. Returns a view if contiguous, otherwise would need copy.
-    /// For now, only works on contiguous arrays.
+    /// Reshape array, reading and placing the elements in C order.
+    /// Returns a view if C-contiguous, otherwise a view of a contiguous copy.
     pub fn reshape(&self, new_shape: Vec<usize>) -> Option<Self> {
         let old_size: usize = self.shape.iter().product();
-        let new_size: usize = new_shape.iter().product();
-        if old_size != new_size {
+        let new_size = new_shape.iter().try_fold(1usize, |acc, &d| acc.checked_mul(d));
+        if new_size != Some(old_size) {
             return None;
         }
-        if !self.is_c_contiguous() && !self.is_f_contiguous() {
-            return None; // Would need copy
+        if !self.is_c_contiguous() {
+            return self.copy().reshape(new_shape);
         }
 
-        let new_strides = if self.is_c_contiguous() {
-            compute_c_strides(&new_shape, self.dtype.itemsize())
-        } else {
-            compute_f_strides(&new_shape, self.dtype.itemsize())
-        };
-
+        let new_strides = compute_c_strides(&new_shape, self.dtype.itemsize());
         Some(self.view_with(0, new_shape, new_strides))
     }
 
diff --git a/src/ops/einsum.rs b/src/ops/einsum.rs
index 5f12e08..aedd0e1 100644
--- a/src/ops/einsum.rs
+++ b/src/ops/einsum.rs
@@ -543,6 +543,7 @@ fn einsum_binary(
     if can_use_blas(a_sub, b_sub) && !contraction_indices.is_empty() {
         if let Some(blas_result) = try_blas_contraction(a, b, a_sub, b_sub, out_sub, dim_map, contraction_indices) {
             // Copy result (dtype-aware)
+            let blas_result = blas_result.astype(result.dtype()); // in C order
             let out_ptr = result.data_ptr() as *mut u8;
             let blas_ptr = blas_result.data_ptr();
             let itemsize = result.dtype().itemsize();
@@ -576,7 +577,15 @@ fn try_blas_contraction(
 
     // Identify free indices for B (in B but not contracted)
     let b_free: Vec<char> = b_sub.iter().filter(|c| !contract_set.contains(c)).copied().collect();
-    let b_contract: Vec<char> = b_sub.iter().filter(|c| contract_set.contains(c)).copied().collect();
+    // The contracted axes of both operands must be flattened in the same order
+    let b_contract = a_contract.clone();
+
+    // A matmul sums over indices both operands have and pairs all others
+    if contraction_indices.iter().any(|c| !a_sub.contains(c) || !b_sub.contains(c))
+        || a_free.iter().any(|c| b_free.contains(c))
+    {
+        return None;
+    }
 
     // Compute dimensions
     let a_free_dims: Vec<usize> = a_free.iter().map(|c| dim_map[c]).collect();
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index b32774b..a0feb2d 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -97,7 +97,9 @@ pub fn resolve_reshape_shape(shape: Vec<isize>, size: usize) -> PyResult<Vec<usi
             }
             neg_idx = Some(i);
         } else {
-            known_product *= dim as usize;
+            known_product = known_product.checked_mul(dim as usize).ok_or_else(|| {
+                pyo3::exceptions::PyValueError::new_err("cannot reshape array: shape is too big")
+            })?;
         }
     }
 
-- 
2.43.0


From 52f7894600b5a6e36410a4c13d82958eb266323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:23 +0000
Subject: [PATCH 21/72] fix: sorting moves elements instead of rebuilding them
 from f64

---
 src/array/dtype/complex128.rs    |  7 +++---
 src/array/dtype/complex64.rs     |  7 +++---
 src/array/dtype/float16.rs       |  3 ++-
 src/array/dtype/macros.rs        |  3 ++-
 src/ops/array_methods/sorting.rs | 39 ++++++++++++++++----------------
 5 files changed, 29 insertions(+), 30 deletions(-)

diff --git a/src/array/dtype/complex128.rs b/src/array/dtype/complex128.rs
index 8901a46..7581209 100644
--- a/src/array/dtype/complex128.rs
+++ b/src/array/dtype/complex128.rs
@@ -390,12 +390,11 @@ impl DTypeOps for Complex128Ops {
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
-        // Compare by magnitude (not ideal but allows sorting)
+        // Compare by real then imaginary part, NaN last, as NumPy does
         let (ar, ai) = Self::read(a, a_offset);
         let (br, bi) = Self::read(b, b_offset);
-        let mag_a = ar * ar + ai * ai;
-        let mag_b = br * br + bi * bi;
-        mag_a.partial_cmp(&mag_b).unwrap_or(Ordering::Equal)
+        let real = ar.partial_cmp(&br).unwrap_or_else(|| ar.is_nan().cmp(&br.is_nan()));
+        real.then(ai.partial_cmp(&bi).unwrap_or_else(|| ai.is_nan().cmp(&bi.is_nan())))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/complex64.rs b/src/array/dtype/complex64.rs
index 19e06f9..9d3e3a9 100644
--- a/src/array/dtype/complex64.rs
+++ b/src/array/dtype/complex64.rs
@@ -387,12 +387,11 @@ impl DTypeOps for Complex64Ops {
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
-        // Compare by magnitude (not ideal but allows sorting)
+        // Compare by real then imaginary part, NaN last, as NumPy does
         let (ar, ai) = Self::read(a, a_offset);
         let (br, bi) = Self::read(b, b_offset);
-        let mag_a = ar * ar + ai * ai;
-        let mag_b = br * br + bi * bi;
-        mag_a.partial_cmp(&mag_b).unwrap_or(Ordering::Equal)
+        let real = ar.partial_cmp(&br).unwrap_or_else(|| ar.is_nan().cmp(&br.is_nan()));
+        real.then(ai.partial_cmp(&bi).unwrap_or_else(|| ai.is_nan().cmp(&bi.is_nan())))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index e527191..8d3e75e 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -164,7 +164,8 @@ impl DTypeOps for Float16Ops {
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
         let av = Self::read(a, a_offset);
         let bv = Self::read(b, b_offset);
-        av.partial_cmp(&bv).unwrap_or(Ordering::Equal)
+        // NaN sorts last, as in NumPy
+        av.partial_cmp(&bv).unwrap_or_else(|| av.is_nan().cmp(&bv.is_nan()))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index c9c715d..95ca970 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -172,7 +172,8 @@ macro_rules! impl_float_dtype {
             unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> std::cmp::Ordering {
                 let av = Self::read(a, a_offset);
                 let bv = Self::read(b, b_offset);
-                av.partial_cmp(&bv).unwrap_or(std::cmp::Ordering::Equal)
+                // NaN sorts last, as in NumPy
+                av.partial_cmp(&bv).unwrap_or_else(|| av.is_nan().cmp(&bv.is_nan()))
             }
 
             unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/ops/array_methods/sorting.rs b/src/ops/array_methods/sorting.rs
index 3239991..4b458d6 100644
--- a/src/ops/array_methods/sorting.rs
+++ b/src/ops/array_methods/sorting.rs
@@ -158,35 +158,31 @@ impl RumpyArray {
         let out_size: usize = out_shape.iter().product();
 
         let ops = dtype.ops();
+        let src_ptr = self.data_ptr();
         let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
         let result_ptr = result_buffer.as_mut_ptr();
 
         let mut out_indices = vec![0usize; out_shape.len()];
         for _ in 0..out_size {
-            // Collect values along axis
-            let mut values: Vec<(f64, usize)> = Vec::with_capacity(axis_len);
+            // Byte offsets of the elements along the axis, in the source and in the result
+            let mut offsets: Vec<isize> = Vec::with_capacity(axis_len);
+            let mut targets: Vec<usize> = Vec::with_capacity(axis_len);
             for k in 0..axis_len {
                 let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
                 in_indices.push(k);
                 if axis < self.ndim() - 1 {
                     in_indices.extend_from_slice(&out_indices[axis..]);
                 }
-                values.push((self.get_element(&in_indices), k));
+                offsets.push(self.byte_offset_for(&in_indices));
+                targets.push(result.byte_offset_for(&in_indices) as usize / dtype.itemsize());
             }
 
             // Sort by value
-            values.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
+            offsets.sort_by(|&a, &b| unsafe { ops.compare_elements(src_ptr, a, src_ptr, b) });
 
-            // Write sorted values back
-            for (k, (val, _)) in values.iter().enumerate() {
-                let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
-                in_indices.push(k);
-                if axis < self.ndim() - 1 {
-                    in_indices.extend_from_slice(&out_indices[axis..]);
-                }
-                let byte_offset = result.byte_offset_for(&in_indices);
-                let linear_idx = byte_offset as usize / dtype.itemsize();
-                unsafe { ops.write_f64(result_ptr, linear_idx, *val); }
+            // Copy the elements in sorted order
+            for (&offset, &target) in offsets.iter().zip(&targets) {
+                unsafe { ops.copy_element(src_ptr, offset, result_ptr, target); }
             }
 
             increment_indices(&mut out_indices, &out_shape);
@@ -224,22 +220,25 @@ impl RumpyArray {
 
         let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
         let result_ptr = result_buffer.as_mut_ptr() as *mut i64;
+        let src_ptr = self.data_ptr();
+        let dtype = self.dtype();
+        let ops = dtype.ops();
 
         let mut out_indices = vec![0usize; out_shape.len()];
         for _ in 0..out_size {
-            // Collect values along axis with their indices
-            let mut values: Vec<(f64, usize)> = Vec::with_capacity(axis_len);
+            // Collect offsets of the elements along axis with their indices
+            let mut values: Vec<(isize, usize)> = Vec::with_capacity(axis_len);
             for k in 0..axis_len {
                 let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
                 in_indices.push(k);
                 if axis < self.ndim() - 1 {
                     in_indices.extend_from_slice(&out_indices[axis..]);
                 }
-                values.push((self.get_element(&in_indices), k));
+                values.push((self.byte_offset_for(&in_indices), k));
             }
 
             // Sort by value, keeping track of original indices
-            values.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
+            values.sort_by(|a, b| unsafe { ops.compare_elements(src_ptr, a.0, src_ptr, b.0) });
 
             // Write sorted indices back
             for (k, (_, orig_idx)) in values.iter().enumerate() {
@@ -332,11 +331,11 @@ fn partition_inplace(arr: &mut RumpyArray, kth: usize, axis: usize) {
         match dtype.kind() {
             DTypeKind::Float64 => {
                 let slice = unsafe { std::slice::from_raw_parts_mut(ptr as *mut f64, axis_len) };
-                slice.select_nth_unstable_by(kth, |a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+                slice.select_nth_unstable_by(kth, |a, b| a.partial_cmp(b).unwrap_or_else(|| a.is_nan().cmp(&b.is_nan())));
             }
             DTypeKind::Float32 => {
                 let slice = unsafe { std::slice::from_raw_parts_mut(ptr as *mut f32, axis_len) };
-                slice.select_nth_unstable_by(kth, |a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+                slice.select_nth_unstable_by(kth, |a, b| a.partial_cmp(b).unwrap_or_else(|| a.is_nan().cmp(&b.is_nan())));
             }
             DTypeKind::Int64 => {
                 let slice = unsafe { std::slice::from_raw_parts_mut(ptr as *mut i64, axis_len) };
-- 
2.43.0


From 733d7cc9bb1d699cdf47b34ed2e0dae17344764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:17 +0000
Subject: [PATCH 22/72] fix: in-place element writes share the array's memory
 and validate before writing

---
 src/ops/indexing.rs       |  69 +++++++++++--------------
 src/python/indexing.rs    |  23 ++++-----
 src/python/pyarray/mod.rs | 105 ++++----------------------------------
 3 files changed, 50 insertions(+), 147 deletions(-)

diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index dc9e81a..3905dc1 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -492,12 +492,15 @@ pub fn flatnonzero(arr: &RumpyArray) -> RumpyArray {
 }
 
 /// Replace elements at given flat indices with given values.
-pub fn put(arr: &mut RumpyArray, indices: &[i64], values: &[f64]) -> Option<()> {
+pub fn put(arr: &RumpyArray, indices: &[i64], values: &[f64]) -> Option<()> {
     let size = arr.size();
-    if indices.is_empty() {
+    if indices.is_empty() || values.is_empty() {
         return Some(());
     }
 
+    // Writes through a handle of its own: views share the buffer
+    let mut arr = arr.clone();
+
     // Normalize and validate all indices first
     let normalized: Vec<usize> = indices.iter()
         .map(|&idx| normalize_index(idx as isize, size))
@@ -525,7 +528,7 @@ pub fn put(arr: &mut RumpyArray, indices: &[i64], values: &[f64]) -> Option<()>
 }
 
 /// Put values into array along an axis using indices.
-pub fn put_along_axis(arr: &mut RumpyArray, indices: &RumpyArray, values: &RumpyArray, axis: usize) -> Option<()> {
+pub fn put_along_axis(arr: &RumpyArray, indices: &RumpyArray, values: &RumpyArray, axis: usize) -> Option<()> {
     if axis >= arr.ndim() || indices.shape() != values.shape() || indices.ndim() != arr.ndim() {
         return None;
     }
@@ -540,47 +543,33 @@ pub fn put_along_axis(arr: &mut RumpyArray, indices: &RumpyArray, values: &Rumpy
     let idx_ptr = indices.data_ptr();
     let idx_dtype = indices.dtype();
     let idx_ops = idx_dtype.ops();
-    let val_ptr = values.data_ptr();
-    let val_dtype = values.dtype();
-    let val_ops = val_dtype.ops();
 
-    let idx_strides = indices.strides();
-    let val_strides = values.strides();
-    let ndim = indices.ndim();
-    let shape = indices.shape().to_vec();
-    let idx_size = indices.size();
-
-    let mut idx_indices = vec![0usize; ndim];
-    let mut target_indices = vec![0usize; ndim];
-
-    for _ in 0..idx_size {
-        // Compute offsets inline
-        let idx_offset: isize = idx_indices.iter()
-            .zip(idx_strides.iter())
-            .map(|(&i, &s)| i as isize * s)
-            .sum();
-        let val_offset: isize = idx_indices.iter()
-            .zip(val_strides.iter())
-            .map(|(&i, &s)| i as isize * s)
-            .sum();
-
-        let idx_val = unsafe { idx_ops.read_i64(idx_ptr, idx_offset) }.unwrap_or(0) as isize;
-        let normalized_idx = normalize_index(idx_val, axis_len)?;
-
-        let val = unsafe { val_ops.read_f64(val_ptr, val_offset) }.unwrap_or(0.0);
-
-        target_indices.copy_from_slice(&idx_indices);
-        target_indices[axis] = normalized_idx;
+    // Read and check all indices before writing anything
+    let targets: Vec<usize> = indices.iter_offsets()
+        .map(|off| {
+            let idx_val = unsafe { idx_ops.read_i64(idx_ptr, off) }.unwrap_or(0) as isize;
+            normalize_index(idx_val, axis_len)
+        })
+        .collect::<Option<Vec<_>>>()?;
 
-        arr.set_element(&target_indices, val);
+    // A copy in C order: the values may be a view of the destination
+    let values = values.astype(arr.dtype());
+    let itemsize = arr.itemsize();
+    let shape = indices.shape().to_vec();
+    let mut target_indices = vec![0usize; indices.ndim()];
+    let mut position = vec![0usize; indices.ndim()];
 
-        for d in (0..ndim).rev() {
-            idx_indices[d] += 1;
-            if idx_indices[d] < shape[d] {
-                break;
-            }
-            idx_indices[d] = 0;
+    for (i, &target) in targets.iter().enumerate() {
+        target_indices.copy_from_slice(&position);
+        target_indices[axis] = target;
+        unsafe {
+            std::ptr::copy_nonoverlapping(
+                values.data_ptr().add(i * itemsize),
+                (arr.data_ptr() as *mut u8).offset(arr.byte_offset_for(&target_indices)),
+                itemsize,
+            );
         }
+        crate::array::increment_indices(&mut position, &shape);
     }
 
     Some(())
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index b00b67e..43c92cf 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -124,7 +124,7 @@ pub fn flatnonzero(a: &PyRumpyArray) -> PyRumpyArray {
 /// Replace values at specified flat indices.
 #[pyfunction]
 pub fn put(
-    a: &mut PyRumpyArray,
+    a: &PyRumpyArray,
     ind: &Bound<'_, pyo3::PyAny>,
     v: &Bound<'_, pyo3::PyAny>,
 ) -> PyResult<()> {
@@ -164,19 +164,19 @@ pub fn put(
         ));
     };
 
-    crate::ops::indexing::put(&mut a.inner, &indices, &values)
+    crate::ops::indexing::put(&a.inner, &indices, &values)
         .ok_or_else(|| pyo3::exceptions::PyIndexError::new_err("index out of bounds"))
 }
 
 /// Put values into the destination array by matching 1d index and data slices.
 #[pyfunction]
 pub fn put_along_axis(
-    arr: &mut PyRumpyArray,
+    arr: &PyRumpyArray,
     indices: &PyRumpyArray,
     values: &PyRumpyArray,
     axis: usize,
 ) -> PyResult<()> {
-    crate::ops::indexing::put_along_axis(&mut arr.inner, &indices.inner, &values.inner, axis)
+    crate::ops::indexing::put_along_axis(&arr.inner, &indices.inner, &values.inner, axis)
         .ok_or_else(|| {
             pyo3::exceptions::PyValueError::new_err(
                 "indices/values shape doesn't match or axis out of bounds",
@@ -774,7 +774,7 @@ pub fn ix_(_py: Python<'_>, args: &Bound<'_, pyo3::types::PyTuple>) -> PyResult<
 #[pyfunction]
 #[pyo3(signature = (a, val, wrap=false))]
 pub fn fill_diagonal(
-    a: &mut PyRumpyArray,
+    a: &PyRumpyArray,
     val: &Bound<'_, pyo3::PyAny>,
     wrap: bool,
 ) -> PyResult<()> {
@@ -789,12 +789,8 @@ pub fn fill_diagonal(
 
     // Convert val to a RumpyArray to handle all dtypes uniformly
     let val_arr: RumpyArray = if let Ok(arr) = val.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        // Cast to target dtype if needed
-        if arr.inner.dtype().ops().name() != a.inner.dtype().ops().name() {
-            arr.inner.astype(a.inner.dtype())
-        } else {
-            arr.inner.clone()
-        }
+        // A copy in C order: it may be strided or a view of the target
+        arr.inner.astype(a.inner.dtype())
     } else if let Ok(scalar) = val.extract::<f64>() {
         RumpyArray::from_vec(vec![scalar], a.inner.dtype().clone())
     } else if let Ok(list) = val.extract::<Vec<f64>>() {
@@ -825,6 +821,9 @@ pub fn fill_diagonal(
     };
 
     let val_size = val_arr.size();
+    if val_size == 0 {
+        return Err(pyo3::exceptions::PyValueError::new_err("val must not be empty"));
+    }
     let val_ptr = val_arr.data_ptr();
     let val_itemsize = val_arr.dtype().itemsize();
 
@@ -832,7 +831,7 @@ pub fn fill_diagonal(
     let min_dim = shape.iter().copied().min().unwrap_or(0);
 
     // Get mutable access to buffer
-    let ptr = a.inner.data_ptr_mut();
+    let ptr = a.inner.data_ptr() as *mut u8;
     let dtype = a.inner.dtype();
     let strides = a.inner.strides();
     let itemsize = dtype.itemsize();
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index a0feb2d..3e5b3b1 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -597,46 +597,17 @@ impl PyRumpyArray {
     }
 
     /// Set values at indices (in-place).
-    fn put(&mut self, indices: &Bound<'_, PyAny>, values: &Bound<'_, PyAny>) -> PyResult<()> {
+    fn put(&self, indices: &Bound<'_, PyAny>, values: &Bound<'_, PyAny>) -> PyResult<()> {
         let idx_vec = extract_i64_vec(indices, "indices")?;
         let val_vec = extract_f64_vec(values, "values")?;
-        crate::ops::indexing::put(&mut self.inner, &idx_vec, &val_vec)
+        crate::ops::indexing::put(&self.inner, &idx_vec, &val_vec)
             .ok_or_else(|| pyo3::exceptions::PyIndexError::new_err("index out of bounds"))
     }
 
     /// Fill the array with a scalar value (in-place).
-    fn fill(&mut self, value: f64) {
-        let size = self.inner.size();
-        if size == 0 {
-            return;
-        }
-
-        // Fast path: contiguous float64 - direct slice fill
-        if self.inner.is_c_contiguous() && self.inner.dtype().ops().name() == "float64" {
-            let ptr = self.inner.data_ptr_mut() as *mut f64;
-            let slice = unsafe { std::slice::from_raw_parts_mut(ptr, size) };
-            slice.fill(value);
-            return;
-        }
-
-        // Fast path: other contiguous types
-        if self.inner.is_c_contiguous() {
-            let dtype = self.inner.dtype();
-            let ptr = self.inner.data_ptr_mut();
-            let ops = dtype.ops();
-            for i in 0..size {
-                unsafe { ops.write_f64(ptr, i, value); }
-            }
-        } else {
-            // Slow path: strided iteration
-            let ndim = self.inner.ndim();
-            let shape = self.inner.shape().to_vec();
-            let mut indices = vec![0usize; ndim];
-            for _ in 0..size {
-                self.inner.set_element(&indices, value);
-                crate::array::increment_indices(&mut indices, &shape);
-            }
-        }
+    fn fill(&self, value: &Bound<'_, PyAny>) -> PyResult<()> {
+        self.inner.assign(&scalar_array(value, self.inner.dtype())?);
+        Ok(())
     }
 
     /// Return the array data as a bytes object.
@@ -885,7 +856,7 @@ impl PyRumpyArray {
     }
 
     /// Partially sort array in-place so element at kth position is in sorted position.
-    fn partition(&mut self, kth: usize) -> PyResult<()> {
+    fn partition(&self, kth: usize) -> PyResult<()> {
         let size = self.inner.size();
         if kth >= size {
             return Err(pyo3::exceptions::PyValueError::new_err(format!(
@@ -893,31 +864,11 @@ impl PyRumpyArray {
             )));
         }
 
-        // Fast path: contiguous float64 array - work directly on buffer
-        if self.inner.is_c_contiguous() && self.inner.dtype().ops().name() == "float64" {
-            let ptr = self.inner.data_ptr_mut() as *mut f64;
-            let slice = unsafe { std::slice::from_raw_parts_mut(ptr, size) };
-            partition_select(slice, kth);
-            return Ok(());
+        // Partition in flattened order, keeping the buffer views and exports share
+        let flat = self.inner.partition(kth, None);
+        if let Some(parted) = flat.reshape(self.inner.shape().to_vec()) {
+            self.inner.assign(&parted);
         }
-
-        // General path: copy, partition, write back
-        let mut values: Vec<f64> = Vec::with_capacity(size);
-        for offset in self.inner.iter_offsets() {
-            let val = unsafe { self.inner.dtype().ops().read_f64(self.inner.data_ptr(), offset) }.unwrap_or(0.0);
-            values.push(val);
-        }
-        partition_select(&mut values, kth);
-
-        let shape = self.inner.shape().to_vec();
-        let mut indices = vec![0usize; self.inner.ndim()];
-        for (i, &val) in values.iter().enumerate() {
-            self.inner.set_element(&indices, val);
-            if i + 1 < size {
-                crate::array::increment_indices(&mut indices, &shape);
-            }
-        }
-
         Ok(())
     }
 
@@ -1363,42 +1314,6 @@ where
     }
 }
 
-/// Quickselect-style partition: rearrange so that element at kth position is in sorted position.
-fn partition_select(arr: &mut [f64], kth: usize) {
-    if arr.len() <= 1 {
-        return;
-    }
-
-    // Simple quickselect
-    let mut left = 0;
-    let mut right = arr.len() - 1;
-
-    while left < right {
-        let pivot_idx = (left + right) / 2;
-        let pivot = arr[pivot_idx];
-
-        // Move pivot to end
-        arr.swap(pivot_idx, right);
-
-        let mut store = left;
-        for i in left..right {
-            if arr[i] < pivot {
-                arr.swap(i, store);
-                store += 1;
-            }
-        }
-        arr.swap(store, right);
-
-        if store == kth {
-            return;
-        } else if store < kth {
-            left = store + 1;
-        } else {
-            right = store.saturating_sub(1);
-        }
-    }
-}
-
 /// Quickselect for indexed values: partition so kth smallest is at position kth.
 fn partition_select_indexed(arr: &mut [(f64, usize)], kth: usize) {
     if arr.len() <= 1 {
-- 
2.43.0


From c071cb0dcb7c708aaf5e07391cfecd7bf4bc6df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:20 +0000
Subject: [PATCH 23/72] fix: copyto copies exactly, also between overlapping
 arrays

---
 src/python/creation.rs | 99 +++++++++++++++---------------------------
 1 file changed, 34 insertions(+), 65 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index c20102b..3befcc5 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -1045,7 +1045,7 @@ pub fn require(
 ///     Only copy where mask is True.
 #[pyfunction(signature = (dst, src, casting=None, r#where=None))]
 pub fn copyto(
-    dst: &mut PyRumpyArray,
+    dst: &PyRumpyArray,
     src: &PyRumpyArray,
     casting: Option<&str>,
     r#where: Option<&PyRumpyArray>,
@@ -1054,74 +1054,43 @@ pub fn copyto(
     // For now, we support basic casting modes
     let _casting = casting.unwrap_or("same_kind");
 
-    // Broadcast src to dst shape if needed
-    let src_broadcasted = if src.inner.shape() != dst.inner.shape() {
-        src.inner.broadcast_to(dst.inner.shape())
-            .ok_or_else(|| {
-                pyo3::exceptions::PyValueError::new_err(
-                    "could not broadcast input array to destination shape"
-                )
-            })?
-    } else {
-        src.inner.clone()
+    let Some(mask) = where_mask else {
+        if !dst.inner.assign(&src.inner) {
+            return Err(pyo3::exceptions::PyValueError::new_err(
+                "could not broadcast input array to destination shape"
+            ));
+        }
+        return Ok(());
     };
 
-    let size = dst.inner.size();
-    let shape = dst.inner.shape().to_vec();
-    if size == 0 {
-        return Ok(());
-    }
+    // Copies in the destination's dtype and shape: source and mask may share its memory
+    let shape = dst.inner.shape();
+    let values = src.inner.broadcast_to(shape)
+        .ok_or_else(|| {
+            pyo3::exceptions::PyValueError::new_err(
+                "could not broadcast input array to destination shape"
+            )
+        })?
+        .astype(dst.inner.dtype());
+    let mask = mask.inner.broadcast_to(shape)
+        .ok_or_else(|| {
+            pyo3::exceptions::PyValueError::new_err(
+                "could not broadcast mask to destination shape"
+            )
+        })?
+        .copy();
 
+    let itemsize = dst.inner.itemsize();
     let dst_ptr = dst.inner.data_ptr() as *mut u8;
-    let src_ptr = src_broadcasted.data_ptr();
-    let dst_dtype = dst.inner.dtype();
-    let src_dtype = src_broadcasted.dtype();
-    let dst_ops = dst_dtype.ops();
-    let src_ops = src_dtype.ops();
-
-    match where_mask {
-        Some(mask) => {
-            // Copy only where mask is True
-            let mask_broadcasted = if mask.inner.shape() != &shape[..] {
-                mask.inner.broadcast_to(&shape)
-                    .ok_or_else(|| {
-                        pyo3::exceptions::PyValueError::new_err(
-                            "could not broadcast mask to destination shape"
-                        )
-                    })?
-            } else {
-                mask.inner.clone()
-            };
-
-            let mask_ptr = mask_broadcasted.data_ptr();
-            let mask_dtype = mask_broadcasted.dtype();
-            let mask_ops = mask_dtype.ops();
-
-            for ((dst_off, src_off), mask_off) in dst.inner.iter_offsets()
-                .zip(src_broadcasted.iter_offsets())
-                .zip(mask_broadcasted.iter_offsets())
-            {
-                let mask_val = unsafe { mask_ops.read_f64(mask_ptr, mask_off) }.unwrap_or(0.0);
-                if mask_val != 0.0 {
-                    let val = unsafe { src_ops.read_f64(src_ptr, src_off) }.unwrap_or(0.0);
-                    unsafe { dst_ops.write_f64_at_byte_offset(dst_ptr, dst_off, val); }
-                }
-            }
-        }
-        None => {
-            // Fast path: both contiguous and same dtype - use memcpy
-            if dst_dtype == src_dtype && dst.inner.is_c_contiguous() && src_broadcasted.is_c_contiguous() {
-                let nbytes = size * dst.inner.itemsize();
-                unsafe { std::ptr::copy_nonoverlapping(src_ptr, dst_ptr, nbytes); }
-                return Ok(());
-            }
-
-            // General path: iterate with typed pointer access
-            for (dst_off, src_off) in dst.inner.iter_offsets()
-                .zip(src_broadcasted.iter_offsets())
-            {
-                let val = unsafe { src_ops.read_f64(src_ptr, src_off) }.unwrap_or(0.0);
-                unsafe { dst_ops.write_f64_at_byte_offset(dst_ptr, dst_off, val); }
+    let mask_dtype = mask.dtype();
+    for ((i, dst_off), mask_off) in dst.inner.iter_offsets().enumerate().zip(mask.iter_offsets()) {
+        if unsafe { mask_dtype.ops().is_truthy(mask.data_ptr(), mask_off) } {
+            unsafe {
+                std::ptr::copy_nonoverlapping(
+                    values.data_ptr().add(i * itemsize),
+                    dst_ptr.offset(dst_off),
+                    itemsize,
+                );
             }
         }
     }
-- 
2.43.0


From 91a834581a5521922afe603b437a0a732f9bfc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:09 +0000
Subject: [PATCH 24/72] fix: shuffle works on every dtype and layout and stays
 inside the array

---
 src/python/random.rs | 47 +++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/python/random.rs b/src/python/random.rs
index a70160a..8d7e1d7 100644
--- a/src/python/random.rs
+++ b/src/python/random.rs
@@ -261,36 +261,39 @@ impl PyGenerator {
 
     /// Shuffle array in place along its first axis.
     fn shuffle(&self, x: &Bound<'_, PyRumpyArray>) -> PyResult<()> {
-        let mut gen = self.inner.lock().unwrap();
         let py_arr = x.borrow();
-
         let arr = &py_arr.inner;
+        if arr.ndim() == 0 {
+            return Err(pyo3::exceptions::PyTypeError::new_err("cannot shuffle a 0-d array"));
+        }
         let n = arr.shape()[0];
 
         if n <= 1 {
             return Ok(());
         }
 
-        // Get mutable pointer to data
-        // Safety: We have exclusive access via PyO3's borrow checking and the GIL
-        let ptr = arr.data_ptr() as *mut f64;
-        let size = arr.size();
-        let data = unsafe { std::slice::from_raw_parts_mut(ptr, size) };
-
-        // For 1D arrays, shuffle elements directly
-        if arr.ndim() == 1 {
-            for i in (1..n).rev() {
-                let j = gen.bounded_uint64((i + 1) as u64) as usize;
-                data.swap(i, j);
-            }
-        } else {
-            // For ND arrays, shuffle along first axis by swapping rows
-            let row_size = arr.shape()[1..].iter().product::<usize>();
-            for i in (1..n).rev() {
-                let j = gen.bounded_uint64((i + 1) as u64) as usize;
-                // Swap rows i and j
-                for k in 0..row_size {
-                    data.swap(i * row_size + k, j * row_size + k);
+        // Swap elements (rows, for ND arrays) where they lie: the array may have any dtype
+        // and layout, and its memory may be shared with views.
+        let row_stride = arr.strides()[0];
+        let row = arr.slice_axis(0, 0, 1, 1);
+        let itemsize = arr.itemsize();
+        let ptr = arr.data_ptr() as *mut u8;
+
+        let mut gen = self.inner.lock().unwrap();
+        for i in (1..n).rev() {
+            let j = gen.bounded_uint64((i + 1) as u64) as usize;
+            if i == j {
+                continue;
+            }
+            for off in row.iter_offsets() {
+                for k in 0..itemsize as isize {
+                    // `swap`: the elements of broadcast views overlap
+                    unsafe {
+                        std::ptr::swap(
+                            ptr.offset(off + i as isize * row_stride + k),
+                            ptr.offset(off + j as isize * row_stride + k),
+                        );
+                    }
                 }
             }
         }
-- 
2.43.0


From 1db5bcaf657f1028312bddbbe3c192ae921d1c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:09 +0000
Subject: [PATCH 25/72] fix: resize refuses arrays whose memory is shared and
 copies exactly

---
 src/python/pyarray/mod.rs | 47 +++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 3e5b3b1..7b94edc 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -784,40 +784,33 @@ impl PyRumpyArray {
     /// Resize array in-place to new shape.
     /// If new size is larger, fills extra space with zeros. If smaller, truncates.
     #[pyo3(signature = (*args))]
-    fn resize(&mut self, args: &Bound<'_, PyTuple>) -> PyResult<()> {
+    fn resize(slf: &Bound<'_, Self>, args: &Bound<'_, PyTuple>) -> PyResult<()> {
         let new_shape = parse_reshape_args_isize(args)?;
-        let new_shape: Vec<usize> = new_shape.iter().map(|&d| d as usize).collect();
-        let new_size: usize = new_shape.iter().product();
-        let old_size = self.inner.size();
-
-        if new_size == 0 {
-            self.inner = RumpyArray::zeros(new_shape, self.inner.dtype());
-            return Ok(());
+        if new_shape.iter().any(|&d| d < 0) {
+            return Err(pyo3::exceptions::PyValueError::new_err(
+                "negative dimensions not allowed",
+            ));
         }
+        let new_shape = parse_shape(PyTuple::new(slf.py(), new_shape)?.as_any())?;
 
-        // Collect current data
-        let mut data: Vec<f64> = Vec::with_capacity(old_size);
-        for offset in self.inner.iter_offsets() {
-            let val = unsafe { self.inner.dtype().ops().read_f64(self.inner.data_ptr(), offset) }.unwrap_or(0.0);
-            data.push(val);
+        // As in NumPy: the memory must not be shared with views, and nothing but the caller
+        // (exported arrays and buffers included) may refer to this array.
+        let shared = py_refcount_ptr(slf.as_ptr()) > 2
+            || std::sync::Arc::strong_count(&slf.try_borrow()?.inner.buffer) > 1;
+        if shared {
+            return Err(pyo3::exceptions::PyValueError::new_err(
+                "cannot resize an array that references or is referenced by another array",
+            ));
         }
 
-        // Create new array - starts as zeros
-        let dtype = self.inner.dtype();
-        let mut result = RumpyArray::zeros(new_shape, dtype.clone());
+        let mut this = slf.try_borrow_mut()?;
+        let old = this.inner.copy(); // in C order
+        let mut result = RumpyArray::zeros(new_shape, old.dtype());
+        let nbytes = old.nbytes().min(result.nbytes());
         let buffer = std::sync::Arc::get_mut(result.buffer_mut()).expect("unique");
-        let ptr = buffer.as_mut_ptr();
-        let ops = dtype.ops();
-
-        // Copy old data (up to min(old_size, new_size))
-        let copy_count = old_size.min(new_size);
-        for i in 0..copy_count {
-            let val = data[i];
-            unsafe { ops.write_f64(ptr, i, val); }
-        }
         // Extra space is already zeros from RumpyArray::zeros
-
-        self.inner = result;
+        unsafe { std::ptr::copy_nonoverlapping(old.data_ptr(), buffer.as_mut_ptr(), nbytes); }
+        this.inner = result;
         Ok(())
     }
 
-- 
2.43.0


From 688c5cefc6f064828df140b30f8054bfc3571163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:08 +0000
Subject: [PATCH 26/72] fix: indexing rows of length zero does not write past
 the result

---
 src/array/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/mod.rs b/src/array/mod.rs
index d0455db..a8b8d29 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -326,7 +326,7 @@ impl RumpyArray {
         }
 
         let axis_len = self.shape()[0];
-        let slice_size: usize = self.shape()[1..].iter().product::<usize>().max(1);
+        let slice_size: usize = self.shape()[1..].iter().product();
 
         let buffer = Arc::get_mut(&mut result.buffer).expect("buffer must be unique");
         let result_ptr = buffer.as_mut_ptr();
-- 
2.43.0


From 203661f8474dc33657ea3901cfe1b2ef281e6814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:37 +0000
Subject: [PATCH 27/72] fix: permutation of an array keeps its dtype and shape

---
 src/python/random.rs | 76 ++++++++++++++++++++------------------------
 1 file changed, 35 insertions(+), 41 deletions(-)

diff --git a/src/python/random.rs b/src/python/random.rs
index 8d7e1d7..4c869e7 100644
--- a/src/python/random.rs
+++ b/src/python/random.rs
@@ -26,6 +26,33 @@ impl From<InvalidParameter> for PyErr {
     }
 }
 
+/// Shuffle an array's elements (rows, for ND arrays) where they lie: it may have any dtype
+/// and layout, and its memory may be shared with views.
+fn shuffle_rows(gen: &mut Generator, arr: &RumpyArray) {
+    let row_stride = arr.strides()[0];
+    let row = arr.slice_axis(0, 0, 1, 1);
+    let itemsize = arr.itemsize();
+    let ptr = arr.data_ptr() as *mut u8;
+
+    for i in (1..arr.shape()[0]).rev() {
+        let j = gen.bounded_uint64((i + 1) as u64) as usize;
+        if i == j {
+            continue;
+        }
+        for off in row.iter_offsets() {
+            for k in 0..itemsize as isize {
+                // `swap`: the elements of broadcast views overlap
+                unsafe {
+                    std::ptr::swap(
+                        ptr.offset(off + i as isize * row_stride + k),
+                        ptr.offset(off + j as isize * row_stride + k),
+                    );
+                }
+            }
+        }
+    }
+}
+
 #[pymethods]
 impl PyGenerator {
     /// Create Generator with PCG64DXSM BitGenerator.
@@ -239,18 +266,14 @@ impl PyGenerator {
 
         // Try array
         if let Ok(arr_ref) = x.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-            // Copy array data
-            let ptr = arr_ref.inner.data_ptr();
-            let dtype = arr_ref.inner.dtype();
-            let ops = dtype.ops();
-            let mut data: Vec<f64> = Vec::with_capacity(arr_ref.inner.size());
-            for offset in arr_ref.inner.iter_offsets() {
-                data.push(unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0));
-            }
-            // Shuffle
+            if arr_ref.inner.ndim() == 0 {
+                return Err(pyo3::exceptions::PyTypeError::new_err(
+                    "permutation: x must be an integer or at least 1-d",
+                ));
+            }
+            let result = arr_ref.inner.copy();
             let mut gen = self.inner.lock().unwrap();
-            gen.shuffle_data(&mut data);
-            let result = RumpyArray::from_vec(data, DType::float64());
+            shuffle_rows(&mut gen, &result);
             return Ok(PyRumpyArray::new(result));
         }
 
@@ -266,37 +289,8 @@ impl PyGenerator {
         if arr.ndim() == 0 {
             return Err(pyo3::exceptions::PyTypeError::new_err("cannot shuffle a 0-d array"));
         }
-        let n = arr.shape()[0];
-
-        if n <= 1 {
-            return Ok(());
-        }
-
-        // Swap elements (rows, for ND arrays) where they lie: the array may have any dtype
-        // and layout, and its memory may be shared with views.
-        let row_stride = arr.strides()[0];
-        let row = arr.slice_axis(0, 0, 1, 1);
-        let itemsize = arr.itemsize();
-        let ptr = arr.data_ptr() as *mut u8;
-
         let mut gen = self.inner.lock().unwrap();
-        for i in (1..n).rev() {
-            let j = gen.bounded_uint64((i + 1) as u64) as usize;
-            if i == j {
-                continue;
-            }
-            for off in row.iter_offsets() {
-                for k in 0..itemsize as isize {
-                    // `swap`: the elements of broadcast views overlap
-                    unsafe {
-                        std::ptr::swap(
-                            ptr.offset(off + i as isize * row_stride + k),
-                            ptr.offset(off + j as isize * row_stride + k),
-                        );
-                    }
-                }
-            }
-        }
+        shuffle_rows(&mut gen, arr);
 
         Ok(())
     }
-- 
2.43.0


From e6c7c8591857256da3598bc04aad6012411b6dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:37 +0000
Subject: [PATCH 28/72] fix: reading one element keeps complex values and wide
 integers exact

---
 src/python/pyarray/dunder_item.rs |  5 ++---
 src/python/pyarray/mod.rs         | 34 ++++++++++++++++++++++++++++---
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index f6f3635..b0a3e91 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -4,7 +4,7 @@ use pyo3::prelude::*;
 use pyo3::types::{PyEllipsis, PyList, PySlice, PyTuple};
 
 use super::{
-    expand_ellipsis, extract_slice_indices, fill_view, first_axis_len, normalize_index,
+    element_object, expand_ellipsis, extract_slice_indices, fill_view, first_axis_len, normalize_index,
     IndexItem, PyRumpyArray,
 };
 use crate::array::RumpyArray;
@@ -104,8 +104,7 @@ impl PyRumpyArray {
                         }
                     })
                     .collect::<PyResult<_>>()?;
-                let val = self.inner.get_element(&indices);
-                return Ok(val.into_pyobject(py)?.into_any().unbind());
+                return element_object(py, &self.inner, &indices);
             }
 
             // Process indices, tracking which axes had integer indices (to squeeze)
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 7b94edc..2ef1b82 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -432,13 +432,13 @@ impl PyRumpyArray {
     }
 
     /// Extract a scalar from a size-1 array.
-    fn item(&self) -> PyResult<f64> {
+    fn item(&self, py: Python<'_>) -> PyResult<PyObject> {
         if self.inner.size() != 1 {
             return Err(pyo3::exceptions::PyValueError::new_err(
                 "can only convert an array of size 1 to a Python scalar",
             ));
         }
-        Ok(self.inner.get_element(&vec![0; self.inner.ndim()]))
+        element_object(py, &self.inner, &vec![0; self.inner.ndim()])
     }
 
     /// Clip values to a range.
@@ -1088,9 +1088,37 @@ fn fill_view(view: &RumpyArray, value: &Bound<'_, PyAny>) -> PyResult<()> {
     }
 }
 
+/// Integers up to this magnitude are exact as f64.
+const EXACT: u64 = 1 << 53;
+
+/// One element as a Python number: a float, unless a float cannot hold the value.
+fn element_object(py: Python<'_>, arr: &RumpyArray, indices: &[usize]) -> PyResult<PyObject> {
+    let offset = arr.byte_offset_for(indices);
+    let dtype = arr.dtype();
+    match dtype.kind() {
+        DTypeKind::Complex64 | DTypeKind::Complex128 => {
+            let (re, im) = arr.get_complex_element(indices);
+            return Ok(PyComplex::from_doubles(py, re, im).into_any().unbind());
+        }
+        DTypeKind::Int64 => {
+            let v = unsafe { *(arr.data_ptr().offset(offset) as *const i64) };
+            if v.unsigned_abs() > EXACT {
+                return Ok(v.into_pyobject(py)?.into_any().unbind());
+            }
+        }
+        DTypeKind::Uint64 => {
+            let v = unsafe { *(arr.data_ptr().offset(offset) as *const u64) };
+            if v > EXACT {
+                return Ok(v.into_pyobject(py)?.into_any().unbind());
+            }
+        }
+        _ => {}
+    }
+    Ok(arr.get_element(indices).into_pyobject(py)?.into_any().unbind())
+}
+
 /// A one-element array of the given dtype holding a Python number.
 fn scalar_array(value: &Bound<'_, PyAny>, dtype: DType) -> PyResult<RumpyArray> {
-    const EXACT: u64 = 1 << 53; // integers up to here are exact as f64
     let wide = matches!(dtype.kind(), DTypeKind::Int64 | DTypeKind::Uint64);
     if wide && value.is_instance_of::<PyInt>() {
         let bits = match value.extract::<i64>() {
-- 
2.43.0


From 072344d45ea3f841954d8260853ae8dea0583acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:22 +0000
Subject: [PATCH 29/72] fix: integers() is exact over the whole int64 range

---
 src/python/random.rs    | 2 +-
 src/random/generator.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/random.rs b/src/python/random.rs
index 4c869e7..ff4fd7e 100644
--- a/src/python/random.rs
+++ b/src/python/random.rs
@@ -133,7 +133,7 @@ impl PyGenerator {
                 None => {
                     // Return scalar - use integers with shape [1] and extract
                     let arr = gen.integers(low, high, vec![1])?;
-                    let val = arr.get_element(&[0]) as i64;
+                    let val = unsafe { *(arr.data_ptr() as *const i64) };
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(shape) => {
diff --git a/src/random/generator.rs b/src/random/generator.rs
index bed92e7..c0e964b 100644
--- a/src/random/generator.rs
+++ b/src/random/generator.rs
@@ -114,10 +114,10 @@ impl Generator {
         for _ in 0..size {
             // Bounded rejection sampling for uniform distribution
             let val = self.bounded_uint64(range);
-            data.push(low.wrapping_add(val as i64) as f64);
+            data.push(low.wrapping_add(val as i64));
         }
 
-        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::int64()))
+        Ok(RumpyArray::from_vec_i64_with_shape(data, shape, DType::int64()))
     }
 
     /// Generate bounded random u64 in [0, range) using Lemire's algorithm.
-- 
2.43.0


From 38841656980c5641e8506fd7330e92582bc3698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:33 +0000
Subject: [PATCH 30/72] fix: place and putmask honour the element types of mask
 and values

---
 src/python/misc.rs | 200 ++++++---------------------------------------
 1 file changed, 25 insertions(+), 175 deletions(-)

diff --git a/src/python/misc.rs b/src/python/misc.rs
index 18ec667..7bfbb88 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -512,99 +512,34 @@ pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> Py
         return Ok(());
     }
 
-    let arr_dtype = inner.dtype();
-    let size = inner.size();
-    let vals_size = vals_arr.size();
-
-    // Fast path: all contiguous, same dtype, bool mask
-    if mask_arr.is_c_contiguous() && inner.is_c_contiguous() && vals_arr.is_c_contiguous()
-        && arr_dtype.kind() == vals_arr.dtype().kind()
-    {
-        let mask_ptr = mask_arr.data_ptr() as *const u8;
-        let arr_ptr = inner.data_ptr();
-        let vals_ptr = vals_arr.data_ptr();
-
-        macro_rules! place_typed {
-            ($ty:ty) => {{
-                let dst = arr_ptr as *mut $ty;
-                let src = vals_ptr as *const $ty;
-                let mut val_idx = 0usize;
-                for i in 0..size {
-                    if unsafe { *mask_ptr.add(i) } != 0 {
-                        unsafe { *dst.add(i) = *src.add(val_idx % vals_size); }
-                        val_idx += 1;
-                    }
-                }
-            }};
-        }
-
-        match arr_dtype.kind() {
-            DTypeKind::Float32 => place_typed!(f32),
-            DTypeKind::Float64 => place_typed!(f64),
-            DTypeKind::Int32 => place_typed!(i32),
-            DTypeKind::Int64 => place_typed!(i64),
-            DTypeKind::Uint32 => place_typed!(u32),
-            DTypeKind::Uint64 => place_typed!(u64),
-            DTypeKind::Int8 => place_typed!(i8),
-            DTypeKind::Int16 => place_typed!(i16),
-            DTypeKind::Uint8 => place_typed!(u8),
-            DTypeKind::Uint16 => place_typed!(u16),
-            DTypeKind::Bool => place_typed!(u8),
-            _ => {} // Fall through to generic path
-        }
-        return Ok(());
-    }
-
-    // Strided path with typed dispatch
-    let mask_ptr = mask_arr.data_ptr();
-    let mask_offsets: Vec<isize> = mask_arr.iter_offsets().collect();
-    let vals_ptr = vals_arr.data_ptr();
-    let vals_offsets: Vec<isize> = vals_arr.iter_offsets().collect();
-    let arr_ptr = inner.data_ptr();
-    let arr_offsets: Vec<isize> = inner.iter_offsets().collect();
-
-    macro_rules! place_strided_typed {
-        ($ty:ty) => {{
-            let mut val_idx = 0usize;
-            for i in 0..size {
-                if unsafe { *(mask_ptr.offset(mask_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { *(vals_ptr.offset(vals_offsets[val_idx % vals_size]) as *const $ty) };
-                    unsafe { *(arr_ptr.offset(arr_offsets[i]) as *mut $ty) = val; }
-                    val_idx += 1;
-                }
-            }
-        }};
-    }
+    write_masked(inner, mask_arr, vals_arr, false);
+    Ok(())
+}
 
-    match arr_dtype.kind() {
-        DTypeKind::Float32 => place_strided_typed!(f32),
-        DTypeKind::Float64 => place_strided_typed!(f64),
-        DTypeKind::Int32 => place_strided_typed!(i32),
-        DTypeKind::Int64 => place_strided_typed!(i64),
-        DTypeKind::Uint32 => place_strided_typed!(u32),
-        DTypeKind::Uint64 => place_strided_typed!(u64),
-        DTypeKind::Int8 => place_strided_typed!(i8),
-        DTypeKind::Int16 => place_strided_typed!(i16),
-        DTypeKind::Uint8 => place_strided_typed!(u8),
-        DTypeKind::Uint16 => place_strided_typed!(u16),
-        DTypeKind::Bool => place_strided_typed!(u8),
-        _ => {
-            // Complex types fallback
-            let arr_ops = arr_dtype.ops();
-            let vals_dtype = vals_arr.dtype();
-            let vals_ops = vals_dtype.ops();
-            let mut val_idx = 0usize;
-            for i in 0..size {
-                if unsafe { *(mask_ptr.offset(mask_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { vals_ops.read_f64(vals_ptr, vals_offsets[val_idx % vals_size]) }.unwrap_or(0.0);
-                    unsafe { arr_ops.write_f64_at_byte_offset(arr_ptr as *mut u8, arr_offsets[i], val); }
-                    val_idx += 1;
-                }
+/// Write values, repeated as needed, to the elements selected by a mask of the same size.
+/// The n-th selected element takes the n-th value, or with `by_position` the value at its position.
+fn write_masked(arr: &RumpyArray, mask: &RumpyArray, vals: &RumpyArray, by_position: bool) {
+    // Copies in C order: mask and values may have any layout and may share the array's memory
+    let mask = mask.copy();
+    let vals = vals.astype(arr.dtype());
+    let mask_dtype = mask.dtype();
+    let itemsize = arr.itemsize();
+    let arr_ptr = arr.data_ptr() as *mut u8;
+
+    let mut selected = 0usize;
+    for ((i, arr_off), mask_off) in arr.iter_offsets().enumerate().zip(mask.iter_offsets()) {
+        if unsafe { mask_dtype.ops().is_truthy(mask.data_ptr(), mask_off) } {
+            let k = if by_position { i } else { selected };
+            unsafe {
+                std::ptr::copy_nonoverlapping(
+                    vals.data_ptr().add(k % vals.size() * itemsize),
+                    arr_ptr.offset(arr_off),
+                    itemsize,
+                );
             }
+            selected += 1;
         }
     }
-
-    Ok(())
 }
 
 // ============================================================================
@@ -629,92 +564,7 @@ pub fn putmask(a: &PyRumpyArray, mask: &PyRumpyArray, values: &PyRumpyArray) ->
         return Ok(());
     }
 
-    let arr_dtype = inner.dtype();
-    let size = inner.size();
-    let vals_size = vals_arr.size();
-
-    // Fast path: all contiguous, same dtype, bool mask
-    if mask_arr.is_c_contiguous() && inner.is_c_contiguous() && vals_arr.is_c_contiguous()
-        && arr_dtype.kind() == vals_arr.dtype().kind()
-    {
-        let mask_ptr = mask_arr.data_ptr() as *const u8;
-        let arr_ptr = inner.data_ptr();
-        let vals_ptr = vals_arr.data_ptr();
-
-        macro_rules! putmask_typed {
-            ($ty:ty) => {{
-                let dst = arr_ptr as *mut $ty;
-                let src = vals_ptr as *const $ty;
-                for i in 0..size {
-                    if unsafe { *mask_ptr.add(i) } != 0 {
-                        unsafe { *dst.add(i) = *src.add(i % vals_size); }
-                    }
-                }
-            }};
-        }
-
-        match arr_dtype.kind() {
-            DTypeKind::Float32 => putmask_typed!(f32),
-            DTypeKind::Float64 => putmask_typed!(f64),
-            DTypeKind::Int32 => putmask_typed!(i32),
-            DTypeKind::Int64 => putmask_typed!(i64),
-            DTypeKind::Uint32 => putmask_typed!(u32),
-            DTypeKind::Uint64 => putmask_typed!(u64),
-            DTypeKind::Int8 => putmask_typed!(i8),
-            DTypeKind::Int16 => putmask_typed!(i16),
-            DTypeKind::Uint8 => putmask_typed!(u8),
-            DTypeKind::Uint16 => putmask_typed!(u16),
-            DTypeKind::Bool => putmask_typed!(u8),
-            _ => {} // Fall through to generic path
-        }
-        return Ok(());
-    }
-
-    // Strided path with typed dispatch
-    let mask_ptr = mask_arr.data_ptr();
-    let mask_offsets: Vec<isize> = mask_arr.iter_offsets().collect();
-    let vals_ptr = vals_arr.data_ptr();
-    let vals_offsets: Vec<isize> = vals_arr.iter_offsets().collect();
-    let arr_ptr = inner.data_ptr();
-    let arr_offsets: Vec<isize> = inner.iter_offsets().collect();
-
-    macro_rules! putmask_strided_typed {
-        ($ty:ty) => {{
-            for i in 0..size {
-                if unsafe { *(mask_ptr.offset(mask_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { *(vals_ptr.offset(vals_offsets[i % vals_size]) as *const $ty) };
-                    unsafe { *(arr_ptr.offset(arr_offsets[i]) as *mut $ty) = val; }
-                }
-            }
-        }};
-    }
-
-    match arr_dtype.kind() {
-        DTypeKind::Float32 => putmask_strided_typed!(f32),
-        DTypeKind::Float64 => putmask_strided_typed!(f64),
-        DTypeKind::Int32 => putmask_strided_typed!(i32),
-        DTypeKind::Int64 => putmask_strided_typed!(i64),
-        DTypeKind::Uint32 => putmask_strided_typed!(u32),
-        DTypeKind::Uint64 => putmask_strided_typed!(u64),
-        DTypeKind::Int8 => putmask_strided_typed!(i8),
-        DTypeKind::Int16 => putmask_strided_typed!(i16),
-        DTypeKind::Uint8 => putmask_strided_typed!(u8),
-        DTypeKind::Uint16 => putmask_strided_typed!(u16),
-        DTypeKind::Bool => putmask_strided_typed!(u8),
-        _ => {
-            // Complex types fallback
-            let arr_ops = arr_dtype.ops();
-            let vals_dtype = vals_arr.dtype();
-            let vals_ops = vals_dtype.ops();
-            for i in 0..size {
-                if unsafe { *(mask_ptr.offset(mask_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { vals_ops.read_f64(vals_ptr, vals_offsets[i % vals_size]) }.unwrap_or(0.0);
-                    unsafe { arr_ops.write_f64_at_byte_offset(arr_ptr as *mut u8, arr_offsets[i], val); }
-                }
-            }
-        }
-    }
-
+    write_masked(inner, mask_arr, vals_arr, true);
     Ok(())
 }
 
-- 
2.43.0


From d4c430d85841762930f800d8c2ff9689587cce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:08 +0000
Subject: [PATCH 31/72] fix: array() and round() results do not share memory
 with their argument

---
 src/ops/dispatch.rs    | 14 +++++++-------
 src/python/creation.rs |  8 ++++++--
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 4ed0ef0..5c190bc 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -1528,13 +1528,13 @@ pub fn dispatch_round(arr: &RumpyArray, decimals: i32) -> Option<RumpyArray> {
         DTypeKind::Float64 => dispatch_round_f64(arr, decimals),
         DTypeKind::Float32 => dispatch_round_f32(arr, decimals),
         // For integers, round is a no-op if decimals >= 0
-        DTypeKind::Int64 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Int32 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Int16 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Uint64 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Uint32 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Uint16 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Uint8 if decimals >= 0 => Some(arr.clone()),
+        DTypeKind::Int64 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Int32 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Int16 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Uint64 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Uint32 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Uint16 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Uint8 if decimals >= 0 => Some(arr.copy()),
         // Negative decimals on integers: round to tens, hundreds, etc.
         DTypeKind::Int64 => dispatch_round_i64(arr, decimals),
         DTypeKind::Int32 => dispatch_round_i32(arr, decimals),
diff --git a/src/python/creation.rs b/src/python/creation.rs
index 3befcc5..44f7b70 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -302,11 +302,15 @@ pub fn asarray(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'_,
     array_impl(py, obj, dtype)
 }
 
-/// Create an array (alias for asarray).
+/// Create an array. Unlike asarray, the result never shares memory with the argument.
 #[pyfunction]
 #[pyo3(signature = (obj, dtype=None))]
 pub fn array(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
-    array_impl(py, obj, dtype)
+    let arr = array_impl(py, obj, dtype)?;
+    match obj.extract::<PyRef<'_, PyRumpyArray>>() {
+        Ok(src) if src.inner.shares_buffer_with(&arr.inner) => Ok(PyRumpyArray::new(arr.inner.copy())),
+        _ => Ok(arr),
+    }
 }
 
 /// Implementation for array/asarray.
-- 
2.43.0


From b1c843515ac0e0b67abe62537789e38cdbd9a834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:39 +0000
Subject: [PATCH 32/72] fix: converting a foreign array to another dtype
 converts its elements

---
 src/python/creation.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index 44f7b70..e7c8fbb 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -369,10 +369,11 @@ fn from_array_interface(
 
     // Extract typestr to determine dtype
     let typestr: String = interface.get_item("typestr")?.extract()?;
-    let dtype = if let Some(dt) = dtype_override {
-        parse_dtype_any(dt)?
-    } else {
-        dtype_from_typestr(&typestr)?
+    let dtype = dtype_from_typestr(&typestr)?;
+    let target_dtype = dtype_override.map(|dt| parse_dtype_any(dt)).transpose()?;
+    let convert = |arr: RumpyArray| match target_dtype {
+        Some(target) if target != arr.dtype() => PyRumpyArray::new(arr.astype(target)),
+        _ => PyRumpyArray::new(arr),
     };
 
     // Extract data pointer
@@ -399,7 +400,7 @@ fn from_array_interface(
     let mut arr = RumpyArray::zeros(shape.clone(), dtype);
 
     if size == 0 {
-        return Ok(PyRumpyArray::new(arr));
+        return Ok(convert(arr));
     }
 
     // Copy data respecting strides
@@ -429,7 +430,7 @@ fn from_array_interface(
         increment_indices(&mut indices, &shape);
     }
 
-    Ok(PyRumpyArray::new(arr))
+    Ok(convert(arr))
 }
 
 /// Infer dtype from first element of a Python list.
-- 
2.43.0


From 2f330a49ed45503fd15d3b38a84d511a5959493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:07 +0000
Subject: [PATCH 33/72] fix: astype keeps complex values and wide integers

---
 src/array/mod.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/array/mod.rs b/src/array/mod.rs
index a8b8d29..e3cf51b 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -439,8 +439,29 @@ impl RumpyArray {
                         unsafe { *dst.add(i) = converted; }
                     }
                 }
+                _ if self.dtype.is_integer() && new_dtype.is_integer() => {
+                    // Between integers: exact, wrapping like NumPy where the value does not fit
+                    for (i, offset) in self.iter_offsets().enumerate() {
+                        let val = unsafe { src_ops.read_i64(src_ptr, offset) }.unwrap_or(0);
+                        unsafe { dst_ops.write_i64(result_ptr, i, val); }
+                    }
+                }
+                (DTypeKind::Complex64 | DTypeKind::Complex128, _) => {
+                    // The real part only where the target is not complex
+                    let complex_dst = matches!(dst_kind, DTypeKind::Complex64 | DTypeKind::Complex128 | DTypeKind::Bool);
+                    for (i, offset) in self.iter_offsets().enumerate() {
+                        let (re, im) = unsafe { src_ops.read_complex(src_ptr, offset) }.unwrap_or((0.0, 0.0));
+                        unsafe {
+                            if complex_dst {
+                                dst_ops.write_complex(result_ptr, i, re, im);
+                            } else {
+                                dst_ops.write_f64(result_ptr, i, re);
+                            }
+                        }
+                    }
+                }
                 _ => {
-                    // Cross-dtype conversion via f64 (lossy for complex)
+                    // Cross-dtype conversion via f64
                     for (i, offset) in self.iter_offsets().enumerate() {
                         let val = unsafe { src_ops.read_f64(src_ptr, offset) }.unwrap_or(0.0);
                         unsafe { dst_ops.write_f64(result_ptr, i, val); }
-- 
2.43.0


From 6f59ed41101242ce773f5c0d2200e14c04eaa4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:34 +0000
Subject: [PATCH 34/72] fix: swapaxes of an axis with itself is a view, like
 every other swap

---
 src/ops/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 5976f7e..125cfa1 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -186,7 +186,7 @@ impl RumpyArray {
         assert!(axis2 < ndim, "axis2 out of bounds");
 
         if axis1 == axis2 {
-            return self.copy();
+            return self.clone();
         }
 
         // Build permutation: swap axis1 and axis2
-- 
2.43.0


From 6ed17d16e79cfd983569538df582e11fa59746dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:26 +0000
Subject: [PATCH 35/72] fix: sinc, i0, modf, frexp, ldexp, heaviside, gcd and
 lcm honour strides, shapes and dtypes of their operands

---
 src/ops/special.rs   | 145 ++++++++++++++++++++++---------------------
 src/python/ufuncs.rs |  24 ++++---
 2 files changed, 89 insertions(+), 80 deletions(-)

diff --git a/src/ops/special.rs b/src/ops/special.rs
index 2075ff9..4278352 100644
--- a/src/ops/special.rs
+++ b/src/ops/special.rs
@@ -4,15 +4,30 @@
 //!
 //! All functions operate natively in their input dtype (no f64 conversion).
 
-use crate::array::dtype::DTypeKind;
-use crate::array::{DType, RumpyArray};
+use crate::array::dtype::{promote_dtype, DTypeKind};
+use crate::array::{broadcast_shapes, DType, RumpyArray};
 use std::sync::Arc;
 
+/// Row-major operand: the loops below walk memory element by element.
+fn contiguous(arr: &RumpyArray) -> RumpyArray {
+    if arr.is_c_contiguous() { arr.clone() } else { arr.copy() }
+}
+
+/// Broadcast two operands against each other and convert each to its dtype, both row-major.
+/// Returns None when the shapes do not broadcast.
+fn broadcast_pair(a: &RumpyArray, a_dtype: DType, b: &RumpyArray, b_dtype: DType) -> Option<(RumpyArray, RumpyArray)> {
+    let shape = broadcast_shapes(a.shape(), b.shape())?;
+    let a = a.broadcast_to(&shape)?.astype(a_dtype);
+    let b = b.broadcast_to(&shape)?.astype(b_dtype);
+    Some((a, b))
+}
+
 // ============================================================================
 // Sinc: sin(pi*x) / (pi*x)
 // ============================================================================
 
 pub fn sinc(arr: &RumpyArray) -> RumpyArray {
+    let arr = &contiguous(arr);
     match arr.dtype().kind() {
         DTypeKind::Float32 => sinc_typed::<f32>(arr, DType::float32()),
         DTypeKind::Float64 => sinc_typed::<f64>(arr, DType::float64()),
@@ -54,6 +69,7 @@ fn sinc_typed<T: Float>(arr: &RumpyArray, dtype: DType) -> RumpyArray {
 // ============================================================================
 
 pub fn i0(arr: &RumpyArray) -> RumpyArray {
+    let arr = &contiguous(arr);
     match arr.dtype().kind() {
         DTypeKind::Float32 => i0_typed::<f32>(arr, DType::float32()),
         DTypeKind::Float64 => i0_typed::<f64>(arr, DType::float64()),
@@ -107,6 +123,7 @@ fn i0_scalar<T: Float>(x: T) -> T {
 // ============================================================================
 
 pub fn spacing(arr: &RumpyArray) -> RumpyArray {
+    let arr = &contiguous(arr);
     match arr.dtype().kind() {
         DTypeKind::Float32 => spacing_f32(arr),
         DTypeKind::Float64 => spacing_f64(arr),
@@ -174,6 +191,7 @@ fn spacing_f32(arr: &RumpyArray) -> RumpyArray {
 // ============================================================================
 
 pub fn modf(arr: &RumpyArray) -> (RumpyArray, RumpyArray) {
+    let arr = &contiguous(arr);
     match arr.dtype().kind() {
         DTypeKind::Float32 => modf_typed::<f32>(arr, DType::float32()),
         DTypeKind::Float64 => modf_typed::<f64>(arr, DType::float64()),
@@ -221,6 +239,7 @@ fn modf_typed<T: Float>(arr: &RumpyArray, dtype: DType) -> (RumpyArray, RumpyArr
 // ============================================================================
 
 pub fn frexp(arr: &RumpyArray) -> (RumpyArray, RumpyArray) {
+    let arr = &contiguous(arr);
     match arr.dtype().kind() {
         DTypeKind::Float32 => frexp_f32(arr),
         DTypeKind::Float64 => frexp_f64(arr),
@@ -337,15 +356,13 @@ fn frexp_scalar_f32(x: f32) -> (f32, i32) {
 // Ldexp: x * 2^i
 // ============================================================================
 
-pub fn ldexp(x: &RumpyArray, i: &RumpyArray) -> RumpyArray {
-    match x.dtype().kind() {
-        DTypeKind::Float32 => ldexp_typed::<f32>(x, i, DType::float32()),
-        DTypeKind::Float64 => ldexp_typed::<f64>(x, i, DType::float64()),
-        _ => {
-            let x_f64 = x.astype(DType::float64());
-            ldexp_typed::<f64>(&x_f64, i, DType::float64())
-        }
-    }
+pub fn ldexp(x: &RumpyArray, i: &RumpyArray) -> Option<RumpyArray> {
+    let dtype = if x.dtype().kind() == DTypeKind::Float32 { DType::float32() } else { DType::float64() };
+    let (x, i) = broadcast_pair(x, dtype.clone(), i, DType::int64())?;
+    Some(match dtype.kind() {
+        DTypeKind::Float32 => ldexp_typed::<f32>(&x, &i, dtype),
+        _ => ldexp_typed::<f64>(&x, &i, dtype),
+    })
 }
 
 fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyArray {
@@ -360,25 +377,11 @@ fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyA
     let result_ptr = result_buffer.as_mut_ptr() as *mut T;
 
     let x_ptr = x.data_ptr() as *const T;
+    let i_ptr = i.data_ptr() as *const i64;
 
-    // Read exponents - they could be any integer type
-    let i_vals: Vec<i32> = match i.dtype().kind() {
-        DTypeKind::Int32 => {
-            let ptr = i.data_ptr() as *const i32;
-            (0..size).map(|idx| unsafe { *ptr.add(idx) }).collect()
-        }
-        DTypeKind::Int64 => {
-            let ptr = i.data_ptr() as *const i64;
-            (0..size).map(|idx| unsafe { *ptr.add(idx) as i32 }).collect()
-        }
-        _ => {
-            // Fallback: use to_vec
-            i.to_vec().iter().map(|&v| v as i32).collect()
-        }
-    };
-
-    for (idx, &iv) in i_vals.iter().enumerate() {
+    for idx in 0..size {
         let xv = unsafe { *x_ptr.add(idx) };
+        let iv = unsafe { *i_ptr.add(idx) }.clamp(i32::MIN as i64, i32::MAX as i64) as i32;
         let y = xv * T::TWO.powi(iv);
         unsafe { *result_ptr.add(idx) = y };
     }
@@ -389,16 +392,13 @@ fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyA
 // Heaviside step function
 // ============================================================================
 
-pub fn heaviside(x: &RumpyArray, h0: &RumpyArray) -> RumpyArray {
-    match x.dtype().kind() {
-        DTypeKind::Float32 => heaviside_typed::<f32>(x, h0, DType::float32()),
-        DTypeKind::Float64 => heaviside_typed::<f64>(x, h0, DType::float64()),
-        _ => {
-            let x_f64 = x.astype(DType::float64());
-            let h0_f64 = h0.astype(DType::float64());
-            heaviside_typed::<f64>(&x_f64, &h0_f64, DType::float64())
-        }
-    }
+pub fn heaviside(x: &RumpyArray, h0: &RumpyArray) -> Option<RumpyArray> {
+    let dtype = if x.dtype().kind() == DTypeKind::Float32 { DType::float32() } else { DType::float64() };
+    let (x, h0) = broadcast_pair(x, dtype.clone(), h0, dtype.clone())?;
+    Some(match dtype.kind() {
+        DTypeKind::Float32 => heaviside_typed::<f32>(&x, &h0, dtype),
+        _ => heaviside_typed::<f64>(&x, &h0, dtype),
+    })
 }
 
 fn heaviside_typed<T: Float>(x: &RumpyArray, h0: &RumpyArray, dtype: DType) -> RumpyArray {
@@ -434,26 +434,31 @@ fn heaviside_typed<T: Float>(x: &RumpyArray, h0: &RumpyArray, dtype: DType) -> R
 // GCD: Greatest common divisor
 // ============================================================================
 
-pub fn gcd(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
-    let kind = a.dtype().kind();
-    match kind {
-        DTypeKind::Int64 => gcd_typed::<i64>(a, b, DType::int64()),
-        DTypeKind::Int32 => gcd_typed::<i32>(a, b, DType::int32()),
-        DTypeKind::Int16 => gcd_typed::<i16>(a, b, DType::int16()),
-        DTypeKind::Int8 => gcd_typed::<i8>(a, b, DType::int8()),
-        DTypeKind::Uint64 => gcd_typed_unsigned::<u64>(a, b, DType::uint64()),
-        DTypeKind::Uint32 => gcd_typed_unsigned::<u32>(a, b, DType::uint32()),
-        DTypeKind::Uint16 => gcd_typed_unsigned::<u16>(a, b, DType::uint16()),
-        DTypeKind::Uint8 => gcd_typed_unsigned::<u8>(a, b, DType::uint8()),
-        _ => {
-            // Fallback for float: convert to i64
-            let a_i64 = a.astype(DType::int64());
-            let b_i64 = b.astype(DType::int64());
-            gcd_typed::<i64>(&a_i64, &b_i64, DType::int64())
-        }
+/// Common integer dtype of both operands; anything else is computed as int64.
+fn integer_dtype(a: &RumpyArray, b: &RumpyArray) -> DType {
+    let dtype = promote_dtype(&a.dtype(), &b.dtype());
+    match dtype.kind() {
+        DTypeKind::Int32 | DTypeKind::Int16 | DTypeKind::Int8 | DTypeKind::Uint64
+        | DTypeKind::Uint32 | DTypeKind::Uint16 | DTypeKind::Uint8 => dtype,
+        _ => DType::int64(),
     }
 }
 
+pub fn gcd(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
+    let dtype = integer_dtype(a, b);
+    let (a, b) = broadcast_pair(a, dtype.clone(), b, dtype.clone())?;
+    Some(match dtype.kind() {
+        DTypeKind::Int32 => gcd_typed::<i32>(&a, &b, dtype),
+        DTypeKind::Int16 => gcd_typed::<i16>(&a, &b, dtype),
+        DTypeKind::Int8 => gcd_typed::<i8>(&a, &b, dtype),
+        DTypeKind::Uint64 => gcd_typed_unsigned::<u64>(&a, &b, dtype),
+        DTypeKind::Uint32 => gcd_typed_unsigned::<u32>(&a, &b, dtype),
+        DTypeKind::Uint16 => gcd_typed_unsigned::<u16>(&a, &b, dtype),
+        DTypeKind::Uint8 => gcd_typed_unsigned::<u8>(&a, &b, dtype),
+        _ => gcd_typed::<i64>(&a, &b, dtype),
+    })
+}
+
 fn gcd_typed<T: SignedInt>(a: &RumpyArray, b: &RumpyArray, dtype: DType) -> RumpyArray {
     let size = a.size();
     if size == 0 {
@@ -524,23 +529,19 @@ fn gcd_scalar_unsigned<T: UnsignedInt>(mut a: T, mut b: T) -> T {
 // LCM: Least common multiple
 // ============================================================================
 
-pub fn lcm(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
-    let kind = a.dtype().kind();
-    match kind {
-        DTypeKind::Int64 => lcm_typed::<i64>(a, b, DType::int64()),
-        DTypeKind::Int32 => lcm_typed::<i32>(a, b, DType::int32()),
-        DTypeKind::Int16 => lcm_typed::<i16>(a, b, DType::int16()),
-        DTypeKind::Int8 => lcm_typed::<i8>(a, b, DType::int8()),
-        DTypeKind::Uint64 => lcm_typed_unsigned::<u64>(a, b, DType::uint64()),
-        DTypeKind::Uint32 => lcm_typed_unsigned::<u32>(a, b, DType::uint32()),
-        DTypeKind::Uint16 => lcm_typed_unsigned::<u16>(a, b, DType::uint16()),
-        DTypeKind::Uint8 => lcm_typed_unsigned::<u8>(a, b, DType::uint8()),
-        _ => {
-            let a_i64 = a.astype(DType::int64());
-            let b_i64 = b.astype(DType::int64());
-            lcm_typed::<i64>(&a_i64, &b_i64, DType::int64())
-        }
-    }
+pub fn lcm(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
+    let dtype = integer_dtype(a, b);
+    let (a, b) = broadcast_pair(a, dtype.clone(), b, dtype.clone())?;
+    Some(match dtype.kind() {
+        DTypeKind::Int32 => lcm_typed::<i32>(&a, &b, dtype),
+        DTypeKind::Int16 => lcm_typed::<i16>(&a, &b, dtype),
+        DTypeKind::Int8 => lcm_typed::<i8>(&a, &b, dtype),
+        DTypeKind::Uint64 => lcm_typed_unsigned::<u64>(&a, &b, dtype),
+        DTypeKind::Uint32 => lcm_typed_unsigned::<u32>(&a, &b, dtype),
+        DTypeKind::Uint16 => lcm_typed_unsigned::<u16>(&a, &b, dtype),
+        DTypeKind::Uint8 => lcm_typed_unsigned::<u8>(&a, &b, dtype),
+        _ => lcm_typed::<i64>(&a, &b, dtype),
+    })
 }
 
 fn lcm_typed<T: SignedInt>(a: &RumpyArray, b: &RumpyArray, dtype: DType) -> RumpyArray {
diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index 5d4b323..4035caa 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -782,26 +782,34 @@ pub fn frexp(x: &PyRumpyArray) -> (PyRumpyArray, PyRumpyArray) {
 
 /// Compute ldexp: x * 2^i.
 #[pyfunction]
-pub fn ldexp(x: &PyRumpyArray, i: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::ldexp(&x.inner, &i.inner))
+pub fn ldexp(x: &PyRumpyArray, i: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::ldexp(&x.inner, &i.inner)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
 }
 
 /// Compute the Heaviside step function.
 #[pyfunction]
-pub fn heaviside(x: &PyRumpyArray, h0: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::heaviside(&x.inner, &h0.inner))
+pub fn heaviside(x: &PyRumpyArray, h0: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::heaviside(&x.inner, &h0.inner)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
 }
 
 /// Compute the greatest common divisor element-wise.
 #[pyfunction]
-pub fn gcd(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::gcd(&x1.inner, &x2.inner))
+pub fn gcd(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::gcd(&x1.inner, &x2.inner)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
 }
 
 /// Compute the least common multiple element-wise.
 #[pyfunction]
-pub fn lcm(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::lcm(&x1.inner, &x2.inner))
+pub fn lcm(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::lcm(&x1.inner, &x2.inner)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
 }
 
 // ============================================================================
-- 
2.43.0


From 25ed6f3383a2b239ce7a096fb47ea8aa6b2800a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:54 +0000
Subject: [PATCH 36/72] fix: norms of strided, long and complex arrays sum
 squared magnitudes

---
 src/ops/dispatch.rs           | 54 +++++++++++++++++------------------
 src/ops/kernels/arithmetic.rs | 27 ------------------
 2 files changed, 26 insertions(+), 55 deletions(-)

diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 5c190bc..8095b33 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -17,7 +17,7 @@ use crate::ops::kernels::arithmetic::{
     Add, Sub, Mul, Div, Sum, Prod, Max, Min,
     Pow, Mod, FloorDiv, Maximum, Minimum,
     Arctan2, Hypot, FMax, FMin, Copysign, Logaddexp, Logaddexp2, Nextafter,
-    NanSum, NanProd, NanMax, NanMin, SumOfSquares,
+    NanSum, NanProd, NanMax, NanMin,
 };
 use crate::ops::kernels::math::{
     Neg, Abs, Sqrt, Exp, Log, Log10, Log2, Sin, Cos, Tan, Floor, Ceil, Square,
@@ -440,34 +440,32 @@ pub fn dispatch_reduce_min(arr: &RumpyArray) -> Option<RumpyArray> {
     dispatch_reduce_to_array(arr, Min)
 }
 
-/// Sum of squares reduction: sum(x*x). Single pass, no intermediate allocation.
+/// Sum of squared magnitudes: sum(|x|^2), accumulated in f64. Single pass, no intermediate allocation.
 pub fn dispatch_reduce_sum_of_squares(arr: &RumpyArray) -> Option<f64> {
-    let kind = arr.dtype().kind();
-    let size = arr.size();
-
-    match kind {
-        DTypeKind::Float64 => dispatch_reduce_typed::<f64, SumOfSquares>(arr, size, SumOfSquares),
-        DTypeKind::Float32 => dispatch_reduce_typed::<f32, SumOfSquares>(arr, size, SumOfSquares).map(|v| v as f64),
-        DTypeKind::Float16 => dispatch_reduce_typed::<f16, SumOfSquares>(arr, size, SumOfSquares).map(|v| v.to_f64()),
-        DTypeKind::Int64 => dispatch_reduce_typed::<i64, SumOfSquares>(arr, size, SumOfSquares).map(|v| v as f64),
-        DTypeKind::Int32 => dispatch_reduce_typed::<i32, SumOfSquares>(arr, size, SumOfSquares).map(|v| v as f64),
-        DTypeKind::Int16 => dispatch_reduce_typed::<i16, SumOfSquares>(arr, size, SumOfSquares).map(|v| v as f64),
-        DTypeKind::Int8 => dispatch_reduce_typed::<i8, SumOfSquares>(arr, size, SumOfSquares).map(|v| v as f64),
-        DTypeKind::Uint64 => dispatch_reduce_typed::<u64, SumOfSquares>(arr, size, SumOfSquares).map(|v| v as f64),
-        DTypeKind::Uint32 => dispatch_reduce_typed::<u32, SumOfSquares>(arr, size, SumOfSquares).map(|v| v as f64),
-        DTypeKind::Uint16 => dispatch_reduce_typed::<u16, SumOfSquares>(arr, size, SumOfSquares).map(|v| v as f64),
-        DTypeKind::Uint8 => dispatch_reduce_typed::<u8, SumOfSquares>(arr, size, SumOfSquares).map(|v| v as f64),
-        // Complex: return magnitude squared sum (re^2 + im^2)
-        DTypeKind::Complex128 => {
-            dispatch_reduce_typed::<Complex<f64>, SumOfSquares>(arr, size, SumOfSquares)
-                .map(|c| c.re + c.im)
-        }
-        DTypeKind::Complex64 => {
-            dispatch_reduce_typed::<Complex<f32>, SumOfSquares>(arr, size, SumOfSquares)
-                .map(|c| (c.re + c.im) as f64)
-        }
-        _ => None,
-    }
+    let square = |v: f64| v * v;
+    Some(match arr.dtype().kind() {
+        DTypeKind::Float64 => sum_mapped::<f64>(arr, square),
+        DTypeKind::Float32 => sum_mapped::<f32>(arr, |v| square(v as f64)),
+        DTypeKind::Float16 => sum_mapped::<f16>(arr, |v| square(v.to_f64())),
+        DTypeKind::Int64 => sum_mapped::<i64>(arr, |v| square(v as f64)),
+        DTypeKind::Int32 => sum_mapped::<i32>(arr, |v| square(v as f64)),
+        DTypeKind::Int16 => sum_mapped::<i16>(arr, |v| square(v as f64)),
+        DTypeKind::Int8 => sum_mapped::<i8>(arr, |v| square(v as f64)),
+        DTypeKind::Uint64 => sum_mapped::<u64>(arr, |v| square(v as f64)),
+        DTypeKind::Uint32 => sum_mapped::<u32>(arr, |v| square(v as f64)),
+        DTypeKind::Uint16 => sum_mapped::<u16>(arr, |v| square(v as f64)),
+        DTypeKind::Uint8 => sum_mapped::<u8>(arr, |v| square(v as f64)),
+        DTypeKind::Bool => sum_mapped::<u8>(arr, |v| (v != 0) as u8 as f64),
+        DTypeKind::Complex128 => sum_mapped::<Complex<f64>>(arr, |v| square(v.re) + square(v.im)),
+        DTypeKind::Complex64 => sum_mapped::<Complex<f32>>(arr, |v| square(v.re as f64) + square(v.im as f64)),
+        _ => return None,
+    })
+}
+
+/// Sum f(x) over all elements, whatever the layout.
+fn sum_mapped<T: Copy>(arr: &RumpyArray, f: impl Fn(T) -> f64) -> f64 {
+    let ptr = arr.data_ptr();
+    arr.iter_offsets().map(|offset| f(unsafe { *(ptr.offset(offset) as *const T) })).sum()
 }
 
 /// Generic reduce dispatch returning a 0-d array.
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index c7d3a61..5cce945 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -82,9 +82,6 @@ pub struct NanMax;
 #[derive(Clone, Copy)]
 pub struct NanMin;
 
-#[derive(Clone, Copy)]
-pub struct SumOfSquares;
-
 // ============================================================================
 // Float implementations
 // ============================================================================
@@ -131,12 +128,6 @@ macro_rules! impl_float_arithmetic {
             #[inline(always)]
             fn combine(acc: $T, v: $T) -> $T { if v < acc { v } else { acc } }
         }
-        impl ReduceKernel<$T> for SumOfSquares {
-            #[inline(always)]
-            fn init() -> $T { 0.0 }
-            #[inline(always)]
-            fn combine(acc: $T, v: $T) -> $T { acc + v * v }
-        }
         impl BinaryKernel<$T> for Pow {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T { a.powf(b) }
@@ -306,12 +297,6 @@ impl ReduceKernel<f16> for Min {
     #[inline(always)]
     fn combine(acc: f16, v: f16) -> f16 { if v < acc { v } else { acc } }
 }
-impl ReduceKernel<f16> for SumOfSquares {
-    #[inline(always)]
-    fn init() -> f16 { f16::ZERO }
-    #[inline(always)]
-    fn combine(acc: f16, v: f16) -> f16 { f16::from_f32(acc.to_f32() + v.to_f32() * v.to_f32()) }
-}
 impl BinaryKernel<f16> for Pow {
     #[inline(always)]
     fn apply(a: f16, b: f16) -> f16 { f16::from_f32(a.to_f32().powf(b.to_f32())) }
@@ -444,12 +429,6 @@ macro_rules! impl_int_arithmetic {
             #[inline(always)]
             fn combine(acc: $T, v: $T) -> $T { if v < acc { v } else { acc } }
         }
-        impl ReduceKernel<$T> for SumOfSquares {
-            #[inline(always)]
-            fn init() -> $T { $zero }
-            #[inline(always)]
-            fn combine(acc: $T, v: $T) -> $T { acc.wrapping_add(v.wrapping_mul(v)) }
-        }
         impl BinaryKernel<$T> for Mod {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T { if b == $zero { $zero } else { a % b } }
@@ -514,12 +493,6 @@ macro_rules! impl_complex_arithmetic {
             #[inline(always)]
             fn combine(acc: Complex<$F>, v: Complex<$F>) -> Complex<$F> { acc * v }
         }
-        impl ReduceKernel<Complex<$F>> for SumOfSquares {
-            #[inline(always)]
-            fn init() -> Complex<$F> { Complex::new(0.0 as $F, 0.0 as $F) }
-            #[inline(always)]
-            fn combine(acc: Complex<$F>, v: Complex<$F>) -> Complex<$F> { acc + v * v }
-        }
         impl BinaryKernel<Complex<$F>> for Pow {
             #[inline(always)]
             fn apply(a: Complex<$F>, b: Complex<$F>) -> Complex<$F> { a.powc(b) }
-- 
2.43.0


From e50a58b05a94565fd50235b507ed476e6e5d0153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:54 +0000
Subject: [PATCH 37/72] fix: matmul, inner, outer and dot convert mixed dtypes
 and handle every numeric type and stride

---
 src/ops/dot.rs        |  9 +++----
 src/ops/gufunc/mod.rs |  7 +++++
 src/ops/inner.rs      | 23 +++++-----------
 src/ops/matmul.rs     | 61 ++++++++++++++++++++++++++++---------------
 src/ops/outer.rs      | 28 ++++----------------
 5 files changed, 61 insertions(+), 67 deletions(-)

diff --git a/src/ops/dot.rs b/src/ops/dot.rs
index 47bf4db..fa8cf37 100644
--- a/src/ops/dot.rs
+++ b/src/ops/dot.rs
@@ -6,6 +6,7 @@
 //! - 1D × 2D or 2D × 1D: vector-matrix product
 
 use crate::array::RumpyArray;
+use crate::ops::inner::inner;
 use crate::ops::matmul::matmul;
 
 /// Dot product with numpy semantics.
@@ -18,12 +19,8 @@ pub fn dot(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
             if a.shape()[0] != b.shape()[0] {
                 return None;
             }
-            let mut sum = 0.0;
-            for i in 0..a.shape()[0] {
-                sum += a.get_element(&[i]) * b.get_element(&[i]);
-            }
-            // Return as 0D array (scalar)
-            Some(RumpyArray::full(vec![], sum, a.dtype()))
+            // Returns a 0D array (scalar)
+            inner(a, b)
         }
         (0, _) => {
             // Scalar × array: element-wise
diff --git a/src/ops/gufunc/mod.rs b/src/ops/gufunc/mod.rs
index 83721a8..1a9e465 100644
--- a/src/ops/gufunc/mod.rs
+++ b/src/ops/gufunc/mod.rs
@@ -49,6 +49,13 @@ pub fn gufunc_call<K: GufuncKernel>(
         .reduce(|a, b| promote_dtype(&a, &b))
         .unwrap_or_else(|| inputs[0].dtype());
 
+    // Kernels see inputs and outputs in one dtype
+    let converted: Vec<RumpyArray> = inputs
+        .iter()
+        .map(|&a| if a.dtype() == output_dtype { a.clone() } else { a.astype(output_dtype.clone()) })
+        .collect();
+    let inputs: Vec<&RumpyArray> = converted.iter().collect();
+
     // Allocate outputs
     let outputs: Vec<RumpyArray> = (0..sig.num_outputs())
         .map(|i| {
diff --git a/src/ops/inner.rs b/src/ops/inner.rs
index 6950523..7e6a2cb 100644
--- a/src/ops/inner.rs
+++ b/src/ops/inner.rs
@@ -3,6 +3,7 @@
 //! Implements inner product with signature "(n),(n)->()".
 
 use crate::array::RumpyArray;
+use crate::ops::matmul::MatmulKernel;
 use crate::ops::gufunc::{gufunc_call, GufuncKernel, GufuncSignature};
 
 /// Inner product kernel.
@@ -26,23 +27,11 @@ impl GufuncKernel for InnerKernel {
     }
 
     fn call(&self, inputs: &[RumpyArray], outputs: &mut [RumpyArray]) {
-        let a = &inputs[0];
-        let b = &inputs[1];
-        let c = &outputs[0];
-
-        let n = a.shape()[0];
-
-        // Inner product: sum_i a[i] * b[i]
-        let mut sum = 0.0;
-        for i in 0..n {
-            sum += a.get_element(&[i]) * b.get_element(&[i]);
-        }
-
-        // Write scalar result
-        let c_ptr = c.data_ptr() as *mut f64;
-        unsafe {
-            *c_ptr = sum;
-        }
+        // sum_i a[i] * b[i] is the (1,n) @ (n,1) product, which handles every dtype
+        let a = inputs[0].expand_dims(0).expect("1-d core");
+        let b = inputs[1].expand_dims(1).expect("1-d core");
+        let c = outputs[0].expand_dims(0).and_then(|c| c.expand_dims(0)).expect("0-d core");
+        MatmulKernel::new().call(&[a, b], &mut [c]);
     }
 }
 
diff --git a/src/ops/matmul.rs b/src/ops/matmul.rs
index aa195ff..0bcb251 100644
--- a/src/ops/matmul.rs
+++ b/src/ops/matmul.rs
@@ -5,6 +5,9 @@
 
 use crate::array::{DType, RumpyArray};
 use crate::ops::gufunc::{gufunc_call, GufuncKernel, GufuncSignature};
+use crate::ops::kernels::arithmetic::{Add, Mul};
+use crate::ops::kernels::BinaryKernel;
+use half::f16;
 
 // Link BLAS when accelerate feature is enabled
 #[cfg(feature = "accelerate")]
@@ -137,6 +140,20 @@ impl GufuncKernel for MatmulKernel {
             matmul_generic::<i64>(a, b, c, m, n, p);
         } else if dtype == DType::int32() {
             matmul_generic::<i32>(a, b, c, m, n, p);
+        } else if dtype == DType::int16() {
+            matmul_generic::<i16>(a, b, c, m, n, p);
+        } else if dtype == DType::int8() {
+            matmul_generic::<i8>(a, b, c, m, n, p);
+        } else if dtype == DType::uint64() {
+            matmul_generic::<u64>(a, b, c, m, n, p);
+        } else if dtype == DType::uint32() {
+            matmul_generic::<u32>(a, b, c, m, n, p);
+        } else if dtype == DType::uint16() {
+            matmul_generic::<u16>(a, b, c, m, n, p);
+        } else if dtype == DType::uint8() {
+            matmul_generic::<u8>(a, b, c, m, n, p);
+        } else if dtype == DType::float16() {
+            matmul_generic::<f16>(a, b, c, m, n, p);
         } else if dtype == DType::bool() {
             matmul_bool(a, b, c, m, n, p);
         } else {
@@ -147,12 +164,12 @@ impl GufuncKernel for MatmulKernel {
 
 /// Bool matmul: C[i,j] = any(A[i,k] AND B[k,j] for all k)
 fn matmul_bool(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usize, p: usize) {
-    let a_row_stride = a.strides()[0] as usize;
-    let a_col_stride = a.strides()[1] as usize;
-    let b_row_stride = b.strides()[0] as usize;
-    let b_col_stride = b.strides()[1] as usize;
-    let c_row_stride = c.strides()[0] as usize;
-    let c_col_stride = c.strides()[1] as usize;
+    let a_row_stride = a.strides()[0];
+    let a_col_stride = a.strides()[1];
+    let b_row_stride = b.strides()[0];
+    let b_col_stride = b.strides()[1];
+    let c_row_stride = c.strides()[0];
+    let c_col_stride = c.strides()[1];
 
     let a_ptr = a.data_ptr();
     let b_ptr = b.data_ptr();
@@ -163,8 +180,8 @@ fn matmul_bool(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usiz
             let mut result = false;
             for k in 0..n {
                 unsafe {
-                    let a_val = *a_ptr.add(i * a_row_stride + k * a_col_stride) != 0;
-                    let b_val = *b_ptr.add(k * b_row_stride + j * b_col_stride) != 0;
+                    let a_val = *a_ptr.offset(i as isize * a_row_stride + k as isize * a_col_stride) != 0;
+                    let b_val = *b_ptr.offset(k as isize * b_row_stride + j as isize * b_col_stride) != 0;
                     if a_val && b_val {
                         result = true;
                         break; // Short-circuit: any true is enough
@@ -172,24 +189,26 @@ fn matmul_bool(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usiz
                 }
             }
             unsafe {
-                *c_ptr.add(i * c_row_stride + j * c_col_stride) = result as u8;
+                *c_ptr.offset(i as isize * c_row_stride + j as isize * c_col_stride) = result as u8;
             }
         }
     }
 }
 
-/// Generic matmul for integer types (no BLAS/faer support)
+/// Generic matmul for types without BLAS/faer support; integers wrap around
 fn matmul_generic<T>(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usize, p: usize)
 where
-    T: Copy + Default + std::ops::Add<Output = T> + std::ops::Mul<Output = T>,
+    T: Copy + Default,
+    Add: BinaryKernel<T>,
+    Mul: BinaryKernel<T>,
 {
     let elem_size = std::mem::size_of::<T>() as isize;
-    let a_row_stride = (a.strides()[0] / elem_size) as usize;
-    let a_col_stride = (a.strides()[1] / elem_size) as usize;
-    let b_row_stride = (b.strides()[0] / elem_size) as usize;
-    let b_col_stride = (b.strides()[1] / elem_size) as usize;
-    let c_row_stride = (c.strides()[0] / elem_size) as usize;
-    let c_col_stride = (c.strides()[1] / elem_size) as usize;
+    let a_row_stride = a.strides()[0] / elem_size;
+    let a_col_stride = a.strides()[1] / elem_size;
+    let b_row_stride = b.strides()[0] / elem_size;
+    let b_col_stride = b.strides()[1] / elem_size;
+    let c_row_stride = c.strides()[0] / elem_size;
+    let c_col_stride = c.strides()[1] / elem_size;
 
     let a_ptr = a.data_ptr() as *const T;
     let b_ptr = b.data_ptr() as *const T;
@@ -200,13 +219,13 @@ where
             let mut sum = T::default();
             for k in 0..n {
                 unsafe {
-                    let a_val = *a_ptr.add(i * a_row_stride + k * a_col_stride);
-                    let b_val = *b_ptr.add(k * b_row_stride + j * b_col_stride);
-                    sum = sum + a_val * b_val;
+                    let a_val = *a_ptr.offset(i as isize * a_row_stride + k as isize * a_col_stride);
+                    let b_val = *b_ptr.offset(k as isize * b_row_stride + j as isize * b_col_stride);
+                    sum = Add::apply(sum, Mul::apply(a_val, b_val));
                 }
             }
             unsafe {
-                *c_ptr.add(i * c_row_stride + j * c_col_stride) = sum;
+                *c_ptr.offset(i as isize * c_row_stride + j as isize * c_col_stride) = sum;
             }
         }
     }
diff --git a/src/ops/outer.rs b/src/ops/outer.rs
index 0c31abe..368219a 100644
--- a/src/ops/outer.rs
+++ b/src/ops/outer.rs
@@ -3,6 +3,7 @@
 //! Implements outer product with signature "(m),(n)->(m,n)".
 
 use crate::array::RumpyArray;
+use crate::ops::matmul::MatmulKernel;
 use crate::ops::gufunc::{gufunc_call, GufuncKernel, GufuncSignature};
 
 /// Outer product kernel.
@@ -26,29 +27,10 @@ impl GufuncKernel for OuterKernel {
     }
 
     fn call(&self, inputs: &[RumpyArray], outputs: &mut [RumpyArray]) {
-        let a = &inputs[0];
-        let b = &inputs[1];
-        let c = &outputs[0];
-
-        let m = a.shape()[0];
-        let n = b.shape()[0];
-
-        let c_ptr = c.data_ptr() as *mut u8;
-        let c_stride_0 = c.strides()[0];
-        let c_stride_1 = c.strides()[1];
-
-        // Outer product: c[i,j] = a[i] * b[j]
-        for i in 0..m {
-            let ai = a.get_element(&[i]);
-            for j in 0..n {
-                let bj = b.get_element(&[j]);
-                let byte_offset = (i as isize) * c_stride_0 + (j as isize) * c_stride_1;
-                unsafe {
-                    let dst = c_ptr.offset(byte_offset);
-                    *(dst as *mut f64) = ai * bj;
-                }
-            }
-        }
+        // c[i,j] = a[i] * b[j] is the (m,1) @ (1,n) product, which handles every dtype
+        let a = inputs[0].expand_dims(1).expect("1-d core");
+        let b = inputs[1].expand_dims(0).expect("1-d core");
+        MatmulKernel::new().call(&[a, b], outputs);
     }
 }
 
-- 
2.43.0


From 33ac4ea0ae32f01146db58fc9ed54ccb60fca861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:23 +0000
Subject: [PATCH 38/72] fix: gradient writes each line of its result in place,
 whatever the layout and dtype of its input

---
 src/ops/numerical.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/ops/numerical.rs b/src/ops/numerical.rs
index 146c9e4..9136c75 100644
--- a/src/ops/numerical.rs
+++ b/src/ops/numerical.rs
@@ -123,14 +123,15 @@ pub fn gradient_with_coords(f: &RumpyArray, coords: &RumpyArray, axis: usize) ->
     }
 
     let x = read_to_f64_vec(coords);
+    let out_offsets = result.axis_offsets(axis);
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let result_ptr = buffer.as_mut_ptr() as *mut f64;
     let (src_stride, out_stride) = (f.strides()[axis], result.strides()[axis]);
 
     macro_rules! run {
         ($loop_fn:ident, $src_ptr:expr) => {
-            for base in f.axis_offsets(axis) {
-                unsafe { $loop_fn($src_ptr.byte_offset(base), result_ptr.byte_offset(base), &x, n, src_stride, out_stride); }
+            for (base, out_base) in f.axis_offsets(axis).zip(out_offsets) {
+                unsafe { $loop_fn($src_ptr.byte_offset(base), result_ptr.byte_offset(out_base), &x, n, src_stride, out_stride); }
             }
         };
     }
@@ -159,6 +160,7 @@ fn gradient_axis(f: &RumpyArray, spacing: f64, axis: usize) -> RumpyArray {
         return result;
     }
 
+    let out_offsets = result.axis_offsets(axis);
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let result_ptr = buffer.as_mut_ptr() as *mut f64;
     let (src_stride, out_stride) = (f.strides()[axis], result.strides()[axis]);
@@ -166,8 +168,8 @@ fn gradient_axis(f: &RumpyArray, spacing: f64, axis: usize) -> RumpyArray {
 
     macro_rules! run {
         ($loop_fn:ident, $src_ptr:expr) => {
-            for base in f.axis_offsets(axis) {
-                unsafe { $loop_fn($src_ptr.byte_offset(base), result_ptr.byte_offset(base), n, h, h2, src_stride, out_stride); }
+            for (base, out_base) in f.axis_offsets(axis).zip(out_offsets) {
+                unsafe { $loop_fn($src_ptr.byte_offset(base), result_ptr.byte_offset(out_base), n, h, h2, src_stride, out_stride); }
             }
         };
     }
@@ -193,6 +195,7 @@ fn gradient_fallback(f: &RumpyArray, x: Option<&[f64]>, spacing: Option<f64>, ax
     let n = shape[axis];
     let mut result = RumpyArray::zeros(shape.to_vec(), DType::float64());
 
+    let out_offsets = result.axis_offsets(axis);
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let result_ptr = buffer.as_mut_ptr() as *mut f64;
     let axis_stride = f.strides()[axis];
@@ -200,7 +203,7 @@ fn gradient_fallback(f: &RumpyArray, x: Option<&[f64]>, spacing: Option<f64>, ax
     let f_dtype = f.dtype();
     let f_ops = f_dtype.ops();
 
-    for base in f.axis_offsets(axis) {
+    for (base, out_base) in f.axis_offsets(axis).zip(out_offsets) {
         let vals = read_axis_values(f.data_ptr(), base, axis_stride, n, &*f_ops);
         let mut grad = vec![0.0; n];
 
@@ -221,7 +224,7 @@ fn gradient_fallback(f: &RumpyArray, x: Option<&[f64]>, spacing: Option<f64>, ax
         }
 
         for (i, &val) in grad.iter().enumerate() {
-            let idx = (base + i as isize * out_stride) / 8;
+            let idx = (out_base + i as isize * out_stride) / 8;
             unsafe { *result_ptr.offset(idx) = val; }
         }
     }
-- 
2.43.0


From 16efcf4455a590936608f4c5b1bfd88fd4dbbd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:23 +0000
Subject: [PATCH 39/72] fix: extract, select and piecewise honour condition
 dtypes, shapes and element types

---
 src/python/misc.rs | 288 ++++++++++++---------------------------------
 1 file changed, 78 insertions(+), 210 deletions(-)

diff --git a/src/python/misc.rs b/src/python/misc.rs
index 7bfbb88..196a086 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -19,7 +19,7 @@ use pyo3::prelude::*;
 use pyo3::types::{PyList, PyTuple};
 use std::sync::Arc;
 
-use crate::array::{DType, RumpyArray};
+use crate::array::{broadcast_shapes, promote_dtype, DType, RumpyArray};
 use crate::array::dtype::DTypeKind;
 use super::{PyRumpyArray, shape::to_rumpy_array};
 
@@ -347,7 +347,7 @@ pub fn trim_zeros(filt: &PyRumpyArray, trim: &str) -> PyResult<PyRumpyArray> {
 /// Return elements of an array that satisfy a condition.
 #[pyfunction]
 pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
-    let cond = &condition.inner;
+    let cond = &condition.inner.astype(DType::bool());
     let inner = &arr.inner;
 
     // Both must have same total size when flattened
@@ -357,134 +357,21 @@ pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpy
         ));
     }
 
-    let dtype = inner.dtype();
-    let size = inner.size();
-
-    // Fast path: both contiguous boolean condition and typed source
-    if cond.is_c_contiguous() && inner.is_c_contiguous() {
-        let cond_ptr = cond.data_ptr() as *const u8;  // bool is stored as u8
-
-        // Count true values
-        let mut count = 0usize;
-        for i in 0..size {
-            if unsafe { *cond_ptr.add(i) } != 0 {
-                count += 1;
-            }
-        }
-
-        let mut result = RumpyArray::zeros(vec![count], dtype.clone());
-        if count == 0 {
-            return Ok(PyRumpyArray::new(result));
-        }
-
-        let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
-        let dst_ptr = buffer.as_mut_ptr();
-        let src_ptr = inner.data_ptr();
-
-        // Typed dispatch for extraction
-        macro_rules! extract_typed {
-            ($ty:ty) => {{
-                let src = src_ptr as *const $ty;
-                let dst = dst_ptr as *mut $ty;
-                let mut dst_idx = 0usize;
-                for i in 0..size {
-                    if unsafe { *cond_ptr.add(i) } != 0 {
-                        unsafe { *dst.add(dst_idx) = *src.add(i); }
-                        dst_idx += 1;
-                    }
-                }
-            }};
-        }
-
-        match dtype.kind() {
-            DTypeKind::Float32 => extract_typed!(f32),
-            DTypeKind::Float64 => extract_typed!(f64),
-            DTypeKind::Int32 => extract_typed!(i32),
-            DTypeKind::Int64 => extract_typed!(i64),
-            DTypeKind::Uint32 => extract_typed!(u32),
-            DTypeKind::Uint64 => extract_typed!(u64),
-            DTypeKind::Int8 => extract_typed!(i8),
-            DTypeKind::Int16 => extract_typed!(i16),
-            DTypeKind::Uint8 => extract_typed!(u8),
-            DTypeKind::Uint16 => extract_typed!(u16),
-            DTypeKind::Bool => extract_typed!(u8),
-            _ => {
-                // Fallback for complex types
-                let ops = dtype.ops();
-                let mut dst_idx = 0usize;
-                for i in 0..size {
-                    if unsafe { *cond_ptr.add(i) } != 0 {
-                        let val = unsafe { ops.read_f64(src_ptr, (i * inner.itemsize()) as isize) }.unwrap_or(0.0);
-                        unsafe { ops.write_f64(dst_ptr, dst_idx, val); }
-                        dst_idx += 1;
-                    }
-                }
-            }
-        }
-
-        return Ok(PyRumpyArray::new(result));
-    }
-
-    // Strided path with typed dispatch
-    let cond_ptr = cond.data_ptr();
-    let cond_offsets: Vec<isize> = cond.iter_offsets().collect();
-
-    // Count true values (condition is always bool = u8)
-    let mut count = 0usize;
-    for &offset in &cond_offsets {
-        if unsafe { *(cond_ptr.offset(offset) as *const u8) } != 0 {
-            count += 1;
-        }
-    }
+    let selected: Vec<isize> = inner.iter_offsets()
+        .zip(cond.iter_offsets())
+        .filter(|&(_, cond_off)| unsafe { *cond.data_ptr().offset(cond_off) } != 0)
+        .map(|(src_off, _)| src_off)
+        .collect();
 
-    let mut result = RumpyArray::zeros(vec![count], dtype.clone());
-    if count == 0 {
+    let itemsize = inner.itemsize();
+    let mut result = RumpyArray::zeros(vec![selected.len()], inner.dtype());
+    if selected.is_empty() {
         return Ok(PyRumpyArray::new(result));
     }
-
+    let dst_ptr = Arc::get_mut(&mut result.buffer).expect("unique").as_mut_ptr();
     let src_ptr = inner.data_ptr();
-    let src_offsets: Vec<isize> = inner.iter_offsets().collect();
-    let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
-    let dst_ptr = buffer.as_mut_ptr();
-
-    macro_rules! extract_strided_typed {
-        ($ty:ty) => {{
-            let dst = dst_ptr as *mut $ty;
-            let mut dst_idx = 0usize;
-            for i in 0..size {
-                if unsafe { *(cond_ptr.offset(cond_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { *(src_ptr.offset(src_offsets[i]) as *const $ty) };
-                    unsafe { *dst.add(dst_idx) = val; }
-                    dst_idx += 1;
-                }
-            }
-        }};
-    }
-
-    match dtype.kind() {
-        DTypeKind::Float32 => extract_strided_typed!(f32),
-        DTypeKind::Float64 => extract_strided_typed!(f64),
-        DTypeKind::Int32 => extract_strided_typed!(i32),
-        DTypeKind::Int64 => extract_strided_typed!(i64),
-        DTypeKind::Uint32 => extract_strided_typed!(u32),
-        DTypeKind::Uint64 => extract_strided_typed!(u64),
-        DTypeKind::Int8 => extract_strided_typed!(i8),
-        DTypeKind::Int16 => extract_strided_typed!(i16),
-        DTypeKind::Uint8 => extract_strided_typed!(u8),
-        DTypeKind::Uint16 => extract_strided_typed!(u16),
-        DTypeKind::Bool => extract_strided_typed!(u8),
-        _ => {
-            // Complex types fallback
-            let ops = dtype.ops();
-            let mut dst_idx = 0usize;
-            for i in 0..size {
-                if unsafe { *(cond_ptr.offset(cond_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { ops.read_f64(src_ptr, src_offsets[i]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, dst_idx as usize, val); }
-                    dst_idx += 1;
-                }
-            }
-        }
+    for (i, &offset) in selected.iter().enumerate() {
+        unsafe { std::ptr::copy_nonoverlapping(src_ptr.offset(offset), dst_ptr.add(i * itemsize), itemsize); }
     }
 
     Ok(PyRumpyArray::new(result))
@@ -592,73 +479,44 @@ pub fn select(
         ));
     }
 
-    let shape = condlist[0].inner.shape().to_vec();
-    let size = condlist[0].inner.size();
-    let out_dtype = choicelist[0].inner.dtype();
-
-    let mut result = RumpyArray::full(shape, default, out_dtype.clone());
-    let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
-    let dst_ptr = buffer.as_mut_ptr();
-
-    // Collect offsets
-    let cond_offsets: Vec<Vec<isize>> = condlist.iter()
-        .map(|c| c.inner.iter_offsets().collect())
-        .collect();
-    let choice_offsets: Vec<Vec<isize>> = choicelist.iter()
-        .map(|c| c.inner.iter_offsets().collect())
-        .collect();
-
-    // Collect raw pointers
-    let cond_ptrs: Vec<*const u8> = condlist.iter()
-        .map(|c| c.inner.data_ptr())
-        .collect();
-    let choice_ptrs: Vec<*const u8> = choicelist.iter()
-        .map(|c| c.inner.data_ptr())
-        .collect();
-
-    macro_rules! select_typed {
-        ($ty:ty) => {{
-            let dst = dst_ptr as *mut $ty;
-            for i in 0..size {
-                for cond_idx in 0..condlist.len() {
-                    // Condition is bool = u8
-                    let cond_val = unsafe { *(cond_ptrs[cond_idx].offset(cond_offsets[cond_idx][i]) as *const u8) };
-                    if cond_val != 0 {
-                        let val = unsafe { *(choice_ptrs[cond_idx].offset(choice_offsets[cond_idx][i]) as *const $ty) };
-                        unsafe { *dst.add(i) = val; }
-                        break;
-                    }
-                }
-            }
-        }};
+    let mismatch = || pyo3::exceptions::PyValueError::new_err(
+        "conditions and choices must have compatible shapes"
+    );
+    let mut shape = condlist[0].inner.shape().to_vec();
+    for arr in condlist.iter().chain(choicelist.iter()) {
+        shape = broadcast_shapes(&shape, arr.inner.shape()).ok_or_else(mismatch)?;
     }
+    let out_dtype = choicelist.iter()
+        .map(|c| c.inner.dtype())
+        .reduce(|a, b| promote_dtype(&a, &b))
+        .expect("at least one choice");
 
-    match out_dtype.kind() {
-        DTypeKind::Float32 => select_typed!(f32),
-        DTypeKind::Float64 => select_typed!(f64),
-        DTypeKind::Int32 => select_typed!(i32),
-        DTypeKind::Int64 => select_typed!(i64),
-        DTypeKind::Uint32 => select_typed!(u32),
-        DTypeKind::Uint64 => select_typed!(u64),
-        DTypeKind::Int8 => select_typed!(i8),
-        DTypeKind::Int16 => select_typed!(i16),
-        DTypeKind::Uint8 => select_typed!(u8),
-        DTypeKind::Uint16 => select_typed!(u16),
-        DTypeKind::Bool => select_typed!(u8),
-        _ => {
-            // Complex types fallback
-            let dst_ops = out_dtype.ops();
-            for i in 0..size {
-                for cond_idx in 0..condlist.len() {
-                    let cond_val = unsafe { *(cond_ptrs[cond_idx].offset(cond_offsets[cond_idx][i]) as *const u8) };
-                    if cond_val != 0 {
-                        let choice = &choicelist[cond_idx].inner;
-                        let choice_dtype = choice.dtype();
-                        let val = unsafe { choice_dtype.ops().read_f64(choice_ptrs[cond_idx], choice_offsets[cond_idx][i]) }.unwrap_or(0.0);
-                        unsafe { dst_ops.write_f64(dst_ptr, i, val); }
-                        break;
-                    }
-                }
+    // Row-major operands: conditions as bool, choices in the result dtype
+    let spread = |arr: &RumpyArray, dtype: DType| -> PyResult<RumpyArray> {
+        Ok(arr.broadcast_to(&shape).ok_or_else(mismatch)?.astype(dtype))
+    };
+    let conds = condlist.iter()
+        .map(|c| spread(&c.inner, DType::bool()))
+        .collect::<PyResult<Vec<_>>>()?;
+    let choices = choicelist.iter()
+        .map(|c| spread(&c.inner, out_dtype.clone()))
+        .collect::<PyResult<Vec<_>>>()?;
+
+    let itemsize = out_dtype.itemsize();
+    let mut result = RumpyArray::full(shape, default, out_dtype);
+    let size = result.size();
+    if size == 0 {
+        return Ok(PyRumpyArray::new(result));
+    }
+    let dst_ptr = Arc::get_mut(&mut result.buffer).expect("unique").as_mut_ptr();
+    for i in 0..size {
+        if let Some(k) = conds.iter().position(|c| unsafe { *c.data_ptr().add(i) } != 0) {
+            unsafe {
+                std::ptr::copy_nonoverlapping(
+                    choices[k].data_ptr().add(i * itemsize),
+                    dst_ptr.add(i * itemsize),
+                    itemsize,
+                );
             }
         }
     }
@@ -705,13 +563,13 @@ pub fn piecewise(
     let src_ptr = inner.data_ptr();
     let src_offsets: Vec<isize> = inner.iter_offsets().collect();
 
-    // Collect condition pointers and offsets
-    let cond_ptrs: Vec<*const u8> = condlist.iter()
-        .map(|c| c.inner.data_ptr())
-        .collect();
-    let cond_offsets: Vec<Vec<isize>> = condlist.iter()
-        .map(|c| c.inner.iter_offsets().collect())
-        .collect();
+    // Conditions, one bool per element of x
+    let conds = condlist.iter()
+        .map(|c| c.inner.broadcast_to(inner.shape()).map(|c| c.astype(DType::bool())))
+        .collect::<Option<Vec<_>>>()
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err(
+            "conditions must have the shape of x"
+        ))?;
 
     let mut assigned = vec![false; size];
 
@@ -735,18 +593,24 @@ pub fn piecewise(
         }};
     }
 
-    // Helper to call a Python function and get result as f64
-    let call_func = |func: &Bound<'_, pyo3::PyAny>, i: usize| -> PyResult<f64> {
-        let x_val = unsafe { dtype.ops().read_f64(src_ptr, src_offsets[i]) }.unwrap_or(0.0);
-        let x_arr = RumpyArray::full(vec![1], x_val, dtype.clone());
+    // Helper to call a Python function on one element and store its result
+    let itemsize = dtype.itemsize();
+    let call_func = |func: &Bound<'_, pyo3::PyAny>, i: usize| -> PyResult<()> {
+        let mut x_arr = RumpyArray::zeros(vec![1], dtype.clone());
+        let x_ptr = Arc::get_mut(&mut x_arr.buffer).expect("unique").as_mut_ptr();
+        unsafe { std::ptr::copy_nonoverlapping(src_ptr.offset(src_offsets[i]), x_ptr, itemsize); }
         let x_py = Py::new(py, PyRumpyArray::new(x_arr))?;
         let result_py = func.call1((x_py,))?;
         if let Ok(arr) = result_py.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-            let arr_dtype = arr.inner.dtype();
-            Ok(unsafe { arr_dtype.ops().read_f64(arr.inner.data_ptr(), 0) }.unwrap_or(0.0))
+            if arr.inner.size() == 0 {
+                return Err(pyo3::exceptions::PyValueError::new_err("function returned an empty array"));
+            }
+            let converted = arr.inner.astype(dtype.clone());
+            unsafe { std::ptr::copy_nonoverlapping(converted.data_ptr(), dst_ptr.add(i * itemsize), itemsize); }
         } else {
-            result_py.extract::<f64>()
+            write_val!(i, result_py.extract::<f64>()?);
         }
+        Ok(())
     };
 
     // Process each condition/function pair
@@ -761,10 +625,12 @@ pub fn piecewise(
         for i in 0..size {
             if assigned[i] { continue; }
 
-            let cond_val = unsafe { *(cond_ptrs[cond_idx].offset(cond_offsets[cond_idx][i]) as *const u8) };
+            let cond_val = unsafe { *conds[cond_idx].data_ptr().add(i) };
             if cond_val != 0 {
-                let val = constant_val.map_or_else(|| call_func(&func_item, i), Ok)?;
-                write_val!(i, val);
+                match constant_val {
+                    Some(val) => write_val!(i, val),
+                    None => call_func(&func_item, i)?,
+                }
                 assigned[i] = true;
             }
         }
@@ -781,8 +647,10 @@ pub fn piecewise(
 
         for i in 0..size {
             if !assigned[i] {
-                let val = constant_val.map_or_else(|| call_func(&default_item, i), Ok)?;
-                write_val!(i, val);
+                match constant_val {
+                    Some(val) => write_val!(i, val),
+                    None => call_func(&default_item, i)?,
+                }
             }
         }
     }
-- 
2.43.0


From af58028aa8462ad5b09119c41298a12a07cf4c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:28 +0000
Subject: [PATCH 40/72] fix: string functions read strided arrays element by
 element

---
 src/ops/char.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ops/char.rs b/src/ops/char.rs
index 3701b90..810e666 100644
--- a/src/ops/char.rs
+++ b/src/ops/char.rs
@@ -332,6 +332,11 @@ unsafe fn write_string(arr: &mut RumpyArray, flat_idx: usize, s: &str) {
     }
 }
 
+/// Row-major operand, as read_string expects.
+fn contiguous(arr: &RumpyArray) -> RumpyArray {
+    if arr.is_c_contiguous() { arr.clone() } else { arr.copy() }
+}
+
 /// Apply a unary string operation element-wise.
 fn apply_unary_string_op<F>(arr: &RumpyArray, op: F) -> Option<RumpyArray>
 where
@@ -341,6 +346,7 @@ where
         DTypeKind::Str(mc) => mc,
         _ => return None,
     };
+    let arr = &contiguous(arr);
 
     let size = arr.size();
 
@@ -385,6 +391,7 @@ where
         return None;
     }
 
+    let (a, b) = (&contiguous(a), &contiguous(b));
     let size = a.size();
     let mut max_out_len = 0usize;
     let mut results = Vec::with_capacity(size);
@@ -1790,7 +1797,11 @@ fn compare_strings(a: &RumpyArray, b: &RumpyArray, cmp: StrCmp) -> Option<RumpyA
     if a.shape() != b.shape() {
         return None;
     }
+    if !matches!((a.dtype().kind(), b.dtype().kind()), (DTypeKind::Str(_), DTypeKind::Str(_))) {
+        return None;
+    }
 
+    let (a, b) = (&contiguous(a), &contiguous(b));
     let size = a.size();
     let mut out = RumpyArray::zeros(a.shape().to_vec(), DType::bool());
     let buffer = Arc::get_mut(&mut out.buffer).expect("buffer must be unique");
@@ -1868,6 +1879,7 @@ pub fn expandtabs(arr: &RumpyArray, tabsize: usize) -> Option<RumpyArray> {
 
 /// Join array elements with separator.
 pub fn join_with(arr: &RumpyArray, sep: &str) -> Option<String> {
+    let arr = &contiguous(arr);
     let size = arr.size();
     let mut strings = Vec::with_capacity(size);
     for i in 0..size {
-- 
2.43.0


From 81c7bcd7bbc3ec872d3d1b9ac882fe9948d5327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:28 +0000
Subject: [PATCH 41/72] fix: unravel_index reads strided index arrays

---
 src/python/indexing.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index 43c92cf..cc9e7e7 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -386,12 +386,11 @@ pub fn unravel_index(
     } else if let Ok(list) = indices.extract::<Vec<i64>>() {
         list
     } else if let Ok(arr) = indices.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        let size = arr.inner.size();
         let ptr = arr.inner.data_ptr();
         let dtype = arr.inner.dtype();
         let ops = dtype.ops();
-        (0..size)
-            .map(|i| unsafe { ops.read_i64(ptr, (i * dtype.itemsize()) as isize) }.unwrap_or(0))
+        arr.inner.iter_offsets()
+            .map(|offset| unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0))
             .collect()
     } else {
         return Err(pyo3::exceptions::PyTypeError::new_err(
-- 
2.43.0


From 53f054abb77829096106abf2b7071f92389ffda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:28 +0000
Subject: [PATCH 42/72] fix: concatenate, stack and insert convert to a common
 dtype instead of reinterpreting elements

---
 src/array/dtype/mod.rs    |  7 +++++++
 src/array/manipulation.rs | 17 ++++++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/array/dtype/mod.rs b/src/array/dtype/mod.rs
index 052af90..d911bae 100644
--- a/src/array/dtype/mod.rs
+++ b/src/array/dtype/mod.rs
@@ -531,6 +531,13 @@ pub fn promote_dtype(a: &DType, b: &DType) -> DType {
         return a.clone();
     }
 
+    // Strings promote to the longer one
+    match (&ak, &bk) {
+        (Str(x), Str(y)) => return if x >= y { a.clone() } else { b.clone() },
+        (Bytes(x), Bytes(y)) => return if x >= y { a.clone() } else { b.clone() },
+        _ => {}
+    }
+
     // Complex types promote to higher-precision complex
     let is_complex = |k: &DTypeKind| matches!(k, Complex64 | Complex128);
     if is_complex(&ak) || is_complex(&bk) {
diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 1fce611..211722d 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -2,7 +2,7 @@
 
 use std::sync::Arc;
 
-use super::dtype::DType;
+use super::dtype::{promote_dtype, DType};
 use super::{increment_indices, RumpyArray};
 
 /// Concatenate arrays along an axis.
@@ -35,9 +35,13 @@ pub fn concatenate(arrays: &[RumpyArray], axis: usize) -> Option<RumpyArray> {
     let mut out_shape = first.shape().to_vec();
     out_shape[axis] = arrays.iter().map(|a| a.shape()[axis]).sum();
 
-    // Use dtype of first array (TODO: dtype promotion)
-    let dtype = first.dtype();
-    let mut result = RumpyArray::zeros(out_shape, dtype);
+    // Promote to a common dtype
+    let dtype = arrays
+        .iter()
+        .map(|a| a.dtype())
+        .reduce(|a, b| promote_dtype(&a, &b))
+        .expect("at least one array");
+    let mut result = RumpyArray::zeros(out_shape, dtype.clone());
 
     if result.size() == 0 {
         return Some(result);
@@ -50,6 +54,7 @@ pub fn concatenate(arrays: &[RumpyArray], axis: usize) -> Option<RumpyArray> {
     // Copy data from each array
     let mut axis_offset = 0usize;
     for arr in arrays {
+        let arr = &if arr.dtype() == dtype { arr.clone() } else { arr.astype(dtype.clone()) };
         let size = arr.size();
         let src_ptr = arr.data_ptr();
         let mut src_indices = vec![0usize; ndim];
@@ -1107,6 +1112,8 @@ pub fn append(arr: &RumpyArray, values: &RumpyArray, axis: Option<isize>) -> Opt
 /// Insert values into array at given index.
 /// If axis is None, flatten first.
 pub fn insert(arr: &RumpyArray, index: isize, values: &RumpyArray, axis: Option<isize>) -> Option<RumpyArray> {
+    // The result keeps the dtype of the array
+    let values = &if values.dtype() == arr.dtype() { values.clone() } else { values.astype(arr.dtype()) };
     match axis {
         None => {
             // Flatten
@@ -1138,7 +1145,7 @@ pub fn insert(arr: &RumpyArray, index: isize, values: &RumpyArray, axis: Option<
 
             // Values need to be reshaped to match
             let mut val_shape = arr.shape().to_vec();
-            val_shape[axis] = values.size() / (arr.size() / axis_len).max(1);
+            val_shape[axis] = values.size() / (arr.size() / axis_len.max(1)).max(1);
             let vals_reshaped = values.reshape(val_shape).unwrap_or_else(|| values.clone());
 
             concatenate(&[before, vals_reshaped, after], axis)
-- 
2.43.0


From bc22978b071319ea361d7d8df0973e559575910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:52 +0000
Subject: [PATCH 43/72] fix: argmax/argmin read strided arrays in bounds and
 return the first NaN

---
 src/ops/array_methods/reductions.rs | 39 ++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index 3efff6c..2d09079 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -296,7 +296,7 @@ impl RumpyArray {
         let mut max_idx = 0;
         for (i, offset) in self.iter_offsets().enumerate() {
             let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            if val > max_val {
+            if val > max_val || is_first_nan(val, max_val) {
                 max_val = val;
                 max_idx = i;
             }
@@ -313,7 +313,7 @@ impl RumpyArray {
         let mut min_idx = 0;
         for (i, offset) in self.iter_offsets().enumerate() {
             let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            if val < min_val {
+            if val < min_val || is_first_nan(val, min_val) {
                 min_val = val;
                 min_idx = i;
             }
@@ -323,12 +323,12 @@ impl RumpyArray {
 
     /// Slow fallback for argmax axis (dynamic dispatch).
     fn argmax_axis_slow(&self, axis: usize) -> RumpyArray {
-        self.arg_reduce_axis_slow(axis, |a, b| a > b)
+        self.arg_reduce_axis_slow(axis, |a, b| a > b || is_first_nan(a, b))
     }
 
     /// Slow fallback for argmin axis (dynamic dispatch).
     fn argmin_axis_slow(&self, axis: usize) -> RumpyArray {
-        self.arg_reduce_axis_slow(axis, |a, b| a < b)
+        self.arg_reduce_axis_slow(axis, |a, b| a < b || is_first_nan(a, b))
     }
 
     /// Slow fallback for argmax/argmin axis (non-optimized types).
@@ -447,6 +447,18 @@ fn dispatch_argmin_full<T: ArgReducible>(arr: &RumpyArray) -> usize {
     }
 }
 
+/// NaN wins over every number, and the first NaN over later ones (as in NumPy).
+#[inline(always)]
+fn is_first_nan<T: PartialEq + Copy>(v: T, best: T) -> bool {
+    !same_as_itself(v) && same_as_itself(best)
+}
+
+#[inline(always)]
+#[allow(clippy::eq_op)]
+fn same_as_itself<T: PartialEq + Copy>(v: T) -> bool {
+    v == v
+}
+
 /// Contiguous argmax - simple linear scan.
 #[inline]
 fn argmax_contiguous<T: ArgReducible>(ptr: *const T, n: usize) -> usize {
@@ -455,7 +467,7 @@ fn argmax_contiguous<T: ArgReducible>(ptr: *const T, n: usize) -> usize {
     let mut best_idx = 0;
     for i in 1..n {
         let v = unsafe { *ptr.add(i) };
-        if v > best_val {
+        if v > best_val || is_first_nan(v, best_val) {
             best_val = v;
             best_idx = i;
         }
@@ -471,7 +483,7 @@ fn argmin_contiguous<T: ArgReducible>(ptr: *const T, n: usize) -> usize {
     let mut best_idx = 0;
     for i in 1..n {
         let v = unsafe { *ptr.add(i) };
-        if v < best_val {
+        if v < best_val || is_first_nan(v, best_val) {
             best_val = v;
             best_idx = i;
         }
@@ -486,7 +498,7 @@ fn argmax_strided<T: ArgReducible>(arr: &RumpyArray) -> usize {
     let mut best_idx = 0;
     for (i, offset) in arr.iter_offsets().enumerate() {
         let v = unsafe { *(ptr as *const u8).offset(offset).cast::<T>() };
-        if v > best_val {
+        if v > best_val || is_first_nan(v, best_val) {
             best_val = v;
             best_idx = i;
         }
@@ -501,7 +513,7 @@ fn argmin_strided<T: ArgReducible>(arr: &RumpyArray) -> usize {
     let mut best_idx = 0;
     for (i, offset) in arr.iter_offsets().enumerate() {
         let v = unsafe { *(ptr as *const u8).offset(offset).cast::<T>() };
-        if v < best_val {
+        if v < best_val || is_first_nan(v, best_val) {
             best_val = v;
             best_idx = i;
         }
@@ -549,7 +561,7 @@ macro_rules! impl_arg_axis {
                         let mut best_idx = 0usize;
                         for j in 1..n_cols {
                             let v = unsafe { *row_start.add(j) };
-                            if v $cmp best_val {
+                            if v $cmp best_val || is_first_nan(v, best_val) {
                                 best_val = v;
                                 best_idx = j;
                             }
@@ -564,7 +576,7 @@ macro_rules! impl_arg_axis {
                         let mut best_idx = 0usize;
                         for j in 1..axis_len {
                             let v = unsafe { *slice_start.add(j) };
-                            if v $cmp best_val {
+                            if v $cmp best_val || is_first_nan(v, best_val) {
                                 best_val = v;
                                 best_idx = j;
                             }
@@ -586,7 +598,7 @@ macro_rules! impl_arg_axis {
                         for inner_idx in 0..inner_size {
                             let v = unsafe { *src_ptr.add(src_idx) };
                             let out_idx = out_base + inner_idx;
-                            if v $cmp best_vals[out_idx] {
+                            if v $cmp best_vals[out_idx] || is_first_nan(v, best_vals[out_idx]) {
                                 best_vals[out_idx] = v;
                                 unsafe { *result_ptr.add(out_idx) = axis_idx as i64; }
                             }
@@ -601,9 +613,8 @@ macro_rules! impl_arg_axis {
                     let mut best_val = unsafe { *start };
                     let mut best_idx = 0i64;
                     for j in 1..axis_len {
-                        let v = unsafe { *(start as *const u8).offset(axis_stride * j as isize) as *const T };
-                        let v = unsafe { *v };
-                        if v $cmp best_val {
+                        let v = unsafe { *((start as *const u8).offset(axis_stride * j as isize) as *const T) };
+                        if v $cmp best_val || is_first_nan(v, best_val) {
                             best_val = v;
                             best_idx = j as i64;
                         }
-- 
2.43.0


From 95b650d2e7405c1a0c621d308efda092ae23d2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:52 +0000
Subject: [PATCH 44/72] fix: take along a length-1 axis copies whole rows

---
 src/ops/indexing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index 3905dc1..fb3c9f4 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -85,8 +85,8 @@ fn take_axis0_contiguous(arr: &RumpyArray, indices: &[usize], mut result: RumpyA
     let result_ptr = buffer.as_mut_ptr();
     let src_ptr = arr.data_ptr();
 
-    // Each "row" is stride[0] bytes (for contiguous, this is product of remaining dims * itemsize)
-    let row_bytes = arr.strides()[0] as usize;
+    // Rows are adjacent (the stride of a length-1 axis says nothing about its size)
+    let row_bytes = arr.shape()[1..].iter().product::<usize>() * arr.itemsize();
 
     for (i, &idx) in indices.iter().enumerate() {
         unsafe {
-- 
2.43.0


From fa338b92e19c82779cf0d4998bd57007fb3ed820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:52 +0000
Subject: [PATCH 45/72] fix: choose returns the common dtype of its choices

---
 src/ops/indexing.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index fb3c9f4..b95aed0 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -1,7 +1,7 @@
 //! Indexing operations: take, take_along_axis, compress, searchsorted, etc.
 
 use std::sync::Arc;
-use crate::array::{DType, RumpyArray};
+use crate::array::{promote_dtype, DType, RumpyArray};
 
 /// Normalize a potentially negative index.
 #[inline]
@@ -583,13 +583,20 @@ pub fn choose(indices: &RumpyArray, choices: &[RumpyArray]) -> Option<RumpyArray
 
     let num_choices = choices.len();
     let out_shape = indices.shape().to_vec();
-    let out_dtype = choices[0].dtype();
+    let out_dtype = choices
+        .iter()
+        .map(|c| c.dtype())
+        .reduce(|a, b| promote_dtype(&a, &b))?;
 
     for choice in choices {
         if choice.shape() != indices.shape() {
             return None;
         }
     }
+    let choices: Vec<RumpyArray> = choices
+        .iter()
+        .map(|c| if c.dtype() == out_dtype { c.clone() } else { c.astype(out_dtype.clone()) })
+        .collect();
 
     let mut result = RumpyArray::zeros(out_shape.clone(), out_dtype);
     let result_size: usize = out_shape.iter().product();
-- 
2.43.0


From 145ba1b8b906f97b28abb9b0fc2a495050880dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:52 +0000
Subject: [PATCH 46/72] fix: bitwise operators convert mixed operands to the
 common dtype

---
 src/ops/bitwise.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ops/bitwise.rs b/src/ops/bitwise.rs
index bba3c9f..a4438ce 100644
--- a/src/ops/bitwise.rs
+++ b/src/ops/bitwise.rs
@@ -10,9 +10,15 @@ use crate::array::dtype::BitwiseOp;
 use crate::ops::comparison::broadcast_binary_setup;
 use crate::ops::dispatch;
 
+/// The operand in the given dtype: the loops read both operands in the result dtype.
+fn in_dtype(a: &RumpyArray, dtype: &crate::array::DType) -> RumpyArray {
+    if a.dtype() == *dtype { a.clone() } else { a.astype(dtype.clone()) }
+}
+
 /// Apply a binary bitwise operation element-wise, preserving dtype.
 fn map_binary_bitwise(a: &RumpyArray, b: &RumpyArray, op: BitwiseOp) -> Option<RumpyArray> {
     let out_dtype = promote_dtype(&a.dtype(), &b.dtype());
+    let (a, b) = (&in_dtype(a, &out_dtype), &in_dtype(b, &out_dtype));
     let (a_bc, b_bc, result, out_shape) = broadcast_binary_setup(a, b, out_dtype.clone())?;
 
     if result.size() == 0 {
-- 
2.43.0


From cb6957214158620e3a54ec54f8ab25722dc4bbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:52 +0000
Subject: [PATCH 47/72] fix: diag copies elements of every dtype

---
 src/ops/linalg.rs | 44 +++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index 75342a4..1684224 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -388,35 +388,29 @@ pub fn cholesky(a: &RumpyArray) -> Option<RumpyArray> {
 /// - 1D input: returns 2D diagonal matrix with input on diagonal
 /// - 2D input: returns 1D array of diagonal elements
 pub fn diag(a: &RumpyArray) -> Option<RumpyArray> {
-    match a.ndim() {
-        1 => {
-            // Create diagonal matrix from 1D array
-            let n = a.shape()[0];
-            let result = RumpyArray::zeros(vec![n, n], a.dtype());
-            for i in 0..n {
-                let val = a.get_element(&[i]);
-                unsafe {
-                    let ptr = result.data_ptr().add((i * n + i) * 8) as *mut f64;
-                    *ptr = val;
-                }
-            }
-            Some(result)
-        }
+    let dtype = a.dtype();
+    let (n, result) = match a.ndim() {
+        // Create diagonal matrix from 1D array
+        1 => (a.shape()[0], RumpyArray::zeros(vec![a.shape()[0]; 2], dtype.clone())),
+        // Extract diagonal from 2D matrix
         2 => {
-            // Extract diagonal from 2D matrix
             let n = a.shape()[0].min(a.shape()[1]);
-            let result = RumpyArray::zeros(vec![n], a.dtype());
-            for i in 0..n {
-                let val = a.get_element(&[i, i]);
-                unsafe {
-                    let ptr = result.data_ptr().add(i * 8) as *mut f64;
-                    *ptr = val;
-                }
-            }
-            Some(result)
+            (n, RumpyArray::zeros(vec![n], dtype.clone()))
+        }
+        _ => return None,
+    };
+    let src_step: isize = a.strides().iter().sum();
+    let dst_step: isize = result.strides().iter().sum();
+    for i in 0..n as isize {
+        unsafe {
+            std::ptr::copy_nonoverlapping(
+                a.data_ptr().offset(i * src_step),
+                (result.data_ptr() as *mut u8).offset(i * dst_step),
+                dtype.itemsize(),
+            );
         }
-        _ => None,
     }
+    Some(result)
 }
 
 /// Sign and log of determinant (for numerical stability with large determinants).
-- 
2.43.0


From d46da3621d19f6c6cf67e0cdae326f3f872023e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:52 +0000
Subject: [PATCH 48/72] fix: solve returns float results for integer systems

---
 src/ops/solve.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ops/solve.rs b/src/ops/solve.rs
index f128578..09abb8b 100644
--- a/src/ops/solve.rs
+++ b/src/ops/solve.rs
@@ -2,7 +2,7 @@
 //!
 //! Solves Ax = b for x using LU decomposition with partial pivoting.
 
-use crate::array::RumpyArray;
+use crate::array::{promote_dtype, DType, RumpyArray};
 use faer::prelude::SpSolver;
 
 /// Solve linear system Ax = b.
@@ -52,7 +52,7 @@ pub fn solve(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
     let fx = plu.solve(&fb);
 
     // Copy result to output
-    let result = RumpyArray::zeros(vec![n, m], a.dtype());
+    let result = RumpyArray::zeros(vec![n, m], DType::float64());
     let result_ptr = result.data_ptr() as *mut u8;
     let r_stride_0 = result.strides()[0];
     let r_stride_1 = result.strides()[1];
@@ -67,6 +67,13 @@ pub fn solve(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
         }
     }
 
+    // Single precision in, single precision out
+    let result = if promote_dtype(&a.dtype(), &b.dtype()) == DType::float32() {
+        result.astype(DType::float32())
+    } else {
+        result
+    };
+
     // Squeeze back to 1D if input was 1D
     if squeeze {
         Some(result.squeeze())
-- 
2.43.0


From 5ab5de3095586939b5487976bb9e218254c60776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:11 +0000
Subject: [PATCH 49/72] fix: where tests conditions by value in every layout
 and dtype

---
 src/ops/dispatch.rs | 13 ++++++------
 src/ops/mod.rs      | 52 ++++++++++++++-------------------------------
 2 files changed, 22 insertions(+), 43 deletions(-)

diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 8095b33..84f257b 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -1680,6 +1680,9 @@ fn dispatch_where_typed<T: Copy>(
 
     let itemsize = std::mem::size_of::<T>() as isize;
 
+    let cond_dtype = cond_bc.dtype();
+    let cond_ops = cond_dtype.ops();
+
     // Check for contiguous fast path: all arrays contiguous and same itemsize
     let all_contiguous = cond_bc.is_c_contiguous() && x_bc.is_c_contiguous() && y_bc.is_c_contiguous();
 
@@ -1687,17 +1690,13 @@ fn dispatch_where_typed<T: Copy>(
         let cond_ptr = cond_bc.data_ptr();
         let x_ptr = x_bc.data_ptr() as *const T;
         let y_ptr = y_bc.data_ptr() as *const T;
-        let cond_itemsize = cond_bc.dtype().itemsize();
+        let cond_itemsize = cond_dtype.itemsize();
 
         for i in 0..size {
             let cond_val = unsafe {
                 match cond_itemsize {
                     1 => *cond_ptr.add(i) != 0,
-                    _ => {
-                        // For other dtypes, check if any byte is non-zero
-                        let ptr = cond_ptr.add(i * cond_itemsize);
-                        (0..cond_itemsize).any(|j| *ptr.add(j) != 0)
-                    }
+                    _ => cond_ops.is_truthy(cond_ptr, (i * cond_itemsize) as isize),
                 }
             };
             let val = if cond_val {
@@ -1714,7 +1713,7 @@ fn dispatch_where_typed<T: Copy>(
             .zip(y_bc.iter_offsets())
             .enumerate()
         {
-            let cond_val = unsafe { *cond_bc.data_ptr().byte_offset(cond_off) != 0 };
+            let cond_val = unsafe { cond_ops.is_truthy(cond_bc.data_ptr(), cond_off) };
             let val = if cond_val {
                 unsafe { *(x_bc.data_ptr() as *const T).byte_offset(x_off) }
             } else {
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 125cfa1..dd54dc7 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -333,7 +333,12 @@ pub fn where_select(condition: &RumpyArray, x: &RumpyArray, y: &RumpyArray) -> O
         return Some(result);
     }
 
-    // Fallback for mixed dtypes
+    // Mixed dtypes: convert to the common dtype
+    if x.dtype() != result_dtype || y.dtype() != result_dtype {
+        return where_select(condition, &x.astype(result_dtype.clone()), &y.astype(result_dtype));
+    }
+
+    // Fallback for dtypes without a typed path
     let cond = condition.broadcast_to(&out_shape)?;
     let x_bc = x.broadcast_to(&out_shape)?;
     let y_bc = y.broadcast_to(&out_shape)?;
@@ -357,44 +362,19 @@ pub fn where_select(condition: &RumpyArray, x: &RumpyArray, y: &RumpyArray) -> O
     let x_ptr = x_bc.data_ptr();
     let y_ptr = y_bc.data_ptr();
 
-    // Check if all dtypes match for direct copy (shouldn't hit this if dispatch worked)
-    let same_dtype = x_bc.dtype() == y_bc.dtype() && x_bc.dtype() == result.dtype();
-
     let mut indices = vec![0usize; out_shape.len()];
 
-    if same_dtype {
-        for i in 0..size {
-            let cond_offset = cond.byte_offset_for(&indices);
-            let is_true = unsafe { cond_ops.is_truthy(cond_ptr, cond_offset) };
-            if is_true {
-                let x_offset = x_bc.byte_offset_for(&indices);
-                unsafe { result_ops.copy_element(x_ptr, x_offset, result_ptr, i); }
-            } else {
-                let y_offset = y_bc.byte_offset_for(&indices);
-                unsafe { result_ops.copy_element(y_ptr, y_offset, result_ptr, i); }
-            }
-            increment_indices(&mut indices, &out_shape);
-        }
-    } else {
-        // Different dtypes: read as f64, write as f64
-        let x_dtype = x_bc.dtype();
-        let x_ops = x_dtype.ops();
-        let y_dtype = y_bc.dtype();
-        let y_ops = y_dtype.ops();
-
-        for i in 0..size {
-            let cond_offset = cond.byte_offset_for(&indices);
-            let is_true = unsafe { cond_ops.is_truthy(cond_ptr, cond_offset) };
-            let val = if is_true {
-                let x_offset = x_bc.byte_offset_for(&indices);
-                unsafe { x_ops.read_f64(x_ptr, x_offset).unwrap_or(0.0) }
-            } else {
-                let y_offset = y_bc.byte_offset_for(&indices);
-                unsafe { y_ops.read_f64(y_ptr, y_offset).unwrap_or(0.0) }
-            };
-            unsafe { result_ops.write_f64(result_ptr, i, val); }
-            increment_indices(&mut indices, &out_shape);
+    for i in 0..size {
+        let cond_offset = cond.byte_offset_for(&indices);
+        let is_true = unsafe { cond_ops.is_truthy(cond_ptr, cond_offset) };
+        if is_true {
+            let x_offset = x_bc.byte_offset_for(&indices);
+            unsafe { result_ops.copy_element(x_ptr, x_offset, result_ptr, i); }
+        } else {
+            let y_offset = y_bc.byte_offset_for(&indices);
+            unsafe { result_ops.copy_element(y_ptr, y_offset, result_ptr, i); }
         }
+        increment_indices(&mut indices, &out_shape);
     }
 
     Some(result)
-- 
2.43.0


From 7411a1343590bc875d662cca89c17338ce0c564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:11 +0000
Subject: [PATCH 50/72] fix: diff of strided arrays uses the arithmetic of its
 dtype

---
 src/ops/array_methods/cumulative.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/ops/array_methods/cumulative.rs b/src/ops/array_methods/cumulative.rs
index d6c3c9a..cd5c6b8 100644
--- a/src/ops/array_methods/cumulative.rs
+++ b/src/ops/array_methods/cumulative.rs
@@ -1,6 +1,6 @@
 //! Cumulative operations on RumpyArray (cumsum, cumprod, diff).
 
-use crate::array::dtype::DTypeKind;
+use crate::array::dtype::{BinaryOp, DTypeKind};
 use crate::array::{increment_indices, DType, RumpyArray};
 use crate::ops::kernels::arithmetic::Sub;
 use crate::ops::loops;
@@ -40,18 +40,25 @@ fn diff_1d_contiguous(src_ptr: *const u8, result_ptr: *mut u8, n: usize, dtype:
         _ => {
             // Fallback for unsupported dtypes (Float16, Bool, DateTime64)
             let itemsize = dtype.itemsize() as isize;
-            let ops = dtype.ops();
             for i in 0..n {
-                unsafe {
-                    let v1 = ops.read_f64(src_ptr, (i as isize) * itemsize).unwrap_or(0.0);
-                    let v2 = ops.read_f64(src_ptr, (i as isize + 1) * itemsize).unwrap_or(0.0);
-                    ops.write_f64(result_ptr, i, v2 - v1);
-                }
+                unsafe { diff_element(src_ptr, (i as isize) * itemsize, itemsize, result_ptr, i, dtype) };
             }
         }
     }
 }
 
+/// One element of a diff, in the arithmetic of its dtype: result[i] = src[offset + step] - src[offset].
+unsafe fn diff_element(src: *const u8, offset: isize, step: isize, result: *mut u8, i: usize, dtype: &DType) {
+    let ops = dtype.ops();
+    if dtype.kind() == DTypeKind::Bool {
+        let v1 = ops.read_f64(src, offset).unwrap_or(0.0);
+        let v2 = ops.read_f64(src, offset + step).unwrap_or(0.0);
+        ops.write_f64(result, i, v2 - v1);
+    } else {
+        ops.binary_op(BinaryOp::Sub, src, offset + step, src, offset, result, i);
+    }
+}
+
 /// Strided diff for N-D arrays along arbitrary axis.
 /// Element-by-element via DTypeOps (no vectorization benefit for strided access).
 fn diff_strided(
@@ -64,16 +71,11 @@ fn diff_strided(
 ) {
     let out_shape = result.shape();
     let out_size: usize = out_shape.iter().product();
-    let ops = dtype.ops();
 
     let mut out_indices = vec![0usize; src.ndim()];
     for i in 0..out_size {
         let offset1 = src.byte_offset_for(&out_indices);
-        unsafe {
-            let v1 = ops.read_f64(src_ptr, offset1).unwrap_or(0.0);
-            let v2 = ops.read_f64(src_ptr, offset1 + axis_stride).unwrap_or(0.0);
-            ops.write_f64(result_ptr, i, v2 - v1);
-        }
+        unsafe { diff_element(src_ptr, offset1, axis_stride, result_ptr, i, dtype) };
         increment_indices(&mut out_indices, out_shape);
     }
 }
@@ -249,7 +251,6 @@ impl RumpyArray {
     /// Uses typed dispatch for performance.
     fn prepend_identity_along_axis(&self, cumulative: &RumpyArray, axis: usize, identity: f64) -> RumpyArray {
         // Try typed dispatch for common dtypes using dtype kind
-        use crate::array::dtype::DTypeKind;
         match cumulative.dtype().kind() {
             DTypeKind::Float64 => self.prepend_identity_typed::<f64>(cumulative, axis, identity as f64),
             DTypeKind::Float32 => self.prepend_identity_typed::<f32>(cumulative, axis, identity as f32),
-- 
2.43.0


From 7b571af7fb0266e5fc35e445336dd65c193505c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:11 +0000
Subject: [PATCH 51/72] fix: kron of strided arrays of different ndim

---
 src/ops/linalg.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index 1684224..14e5c6f 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -929,6 +929,8 @@ pub fn kron(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
         out_shape.push(a_shape[i] * b_shape[i]);
     }
 
+    let a = &a.reshape(a_shape.clone())?;
+    let b = &b.reshape(b_shape.clone())?;
     let result = RumpyArray::zeros(out_shape.clone(), DType::float64());
 
     // For 2D case (most common)
-- 
2.43.0


From 21ba1473adbfd02f1e87be4403024d5ae5293558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:11 +0000
Subject: [PATCH 52/72] fix: repeat, tile, pad and roll copy elements of every
 dtype exactly

---
 src/array/manipulation.rs | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 211722d..101aa7b 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -928,16 +928,13 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
 
             let src_ptr = arr.data_ptr();
             let src_ops = src_dtype.ops();
-            let dst_dtype = result.dtype();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
-            let dst_ops = dst_dtype.ops();
 
             let mut dst_idx = 0;
             for offset in arr.iter_offsets() {
-                let val = unsafe { src_ops.read_f64(src_ptr, offset) }.unwrap_or(0.0);
                 for _ in 0..repeats {
-                    unsafe { dst_ops.write_f64(dst_ptr, dst_idx, val); }
+                    unsafe { src_ops.copy_element(src_ptr, offset, dst_ptr, dst_idx); }
                     dst_idx += 1;
                 }
             }
@@ -958,10 +955,8 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
 
             let src_ptr = arr.data_ptr();
             let src_ops = src_dtype.ops();
-            let dst_dtype = result.dtype();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
-            let dst_ops = dst_dtype.ops();
 
             // Iterate through source indices and write repeated values
             let src_shape = arr.shape();
@@ -971,7 +966,6 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
             let size = arr.size();
             for _ in 0..size {
                 let src_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_offset) }.unwrap_or(0.0);
 
                 // Write this value `repeats` times along the axis
                 dst_indices.copy_from_slice(&src_indices);
@@ -979,7 +973,7 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
                 for r in 0..repeats {
                     dst_indices[axis] = base_axis_idx + r;
                     let dst_offset = linear_index(&dst_indices, &new_shape);
-                    unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+                    unsafe { src_ops.copy_element(src_ptr, src_offset, dst_ptr, dst_offset); }
                 }
 
                 increment_indices(&mut src_indices, src_shape);
@@ -1042,10 +1036,8 @@ pub fn tile(arr: &RumpyArray, reps: &[usize]) -> RumpyArray {
 
     let src_ptr = arr.data_ptr();
     let src_ops = src_dtype.ops();
-    let dst_dtype = result.dtype();
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let dst_ptr = buffer.as_mut_ptr();
-    let dst_ops = dst_dtype.ops();
 
     // Iterate through destination indices
     let mut dst_indices = vec![0usize; max_ndim];
@@ -1066,11 +1058,10 @@ pub fn tile(arr: &RumpyArray, reps: &[usize]) -> RumpyArray {
             src_indices
         };
         let src_byte_offset = arr.byte_offset_for(&actual_src_indices);
-        let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
 
         // Destination offset (result is C-contiguous, so use linear index)
         let dst_offset = linear_index(&dst_indices, &new_shape);
-        unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+        unsafe { src_ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
         // Increment destination indices
         if i + 1 < dst_size {
@@ -1218,13 +1209,15 @@ pub fn pad(arr: &RumpyArray, pad_width: &[(usize, usize)], mode: &str, constant_
             Some(result)
         }
         "edge" => {
+            // An empty axis has no edge to extend
+            if arr.shape().iter().zip(pad_width).any(|(&s, &(b, a))| s == 0 && b + a > 0) {
+                return None;
+            }
             let src_dtype = arr.dtype();
             let mut result = RumpyArray::zeros(new_shape.clone(), src_dtype.clone());
             let src_ops = src_dtype.ops();
-            let dst_dtype = result.dtype();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
-            let dst_ops = dst_dtype.ops();
 
             let mut dst_indices = vec![0usize; ndim];
             let dst_size: usize = new_shape.iter().product();
@@ -1243,9 +1236,8 @@ pub fn pad(arr: &RumpyArray, pad_width: &[(usize, usize)], mode: &str, constant_
                     .collect();
 
                 let src_byte_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
                 let dst_offset = linear_index(&dst_indices, &new_shape);
-                unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+                unsafe { src_ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
                 increment_indices(&mut dst_indices, &new_shape);
             }
@@ -1264,10 +1256,8 @@ fn copy_region(src: &RumpyArray, dst: &mut RumpyArray, pad_width: &[(usize, usiz
     let src_ptr = src.data_ptr();
     let src_dtype = src.dtype();
     let src_ops = src_dtype.ops();
-    let dst_dtype = dst.dtype();
     let buffer = Arc::get_mut(dst.buffer_mut()).expect("unique");
     let dst_ptr = buffer.as_mut_ptr();
-    let dst_ops = dst_dtype.ops();
 
     let mut src_indices = vec![0usize; ndim];
     let src_size = src.size();
@@ -1280,10 +1270,9 @@ fn copy_region(src: &RumpyArray, dst: &mut RumpyArray, pad_width: &[(usize, usiz
             .collect();
 
         let src_byte_offset = src.byte_offset_for(&src_indices);
-        let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
 
         let dst_offset = linear_index(&dst_indices, dst_shape);
-        unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+        unsafe { src_ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
         increment_indices(&mut src_indices, src_shape);
     }
@@ -1361,10 +1350,8 @@ pub fn roll(arr: &RumpyArray, shift: isize, axis: Option<isize>) -> RumpyArray {
             let mut result = RumpyArray::zeros(result_shape.clone(), src_dtype.clone());
             let src_ptr = arr.data_ptr();
             let src_ops = src_dtype.ops();
-            let dst_dtype = result.dtype();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
-            let dst_ops = dst_dtype.ops();
 
             let mut dst_indices = vec![0usize; ndim];
             let size = arr.size();
@@ -1375,10 +1362,9 @@ pub fn roll(arr: &RumpyArray, shift: isize, axis: Option<isize>) -> RumpyArray {
                 src_indices[axis] = (dst_indices[axis] + axis_len - shift) % axis_len;
 
                 let src_byte_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
 
                 let dst_offset = linear_index(&dst_indices, &result_shape);
-                unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+                unsafe { src_ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
                 increment_indices(&mut dst_indices, arr.shape());
             }
-- 
2.43.0


From c4ea1716fd9e5b0230aefafc4a31aaae91aaf420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:11 +0000
Subject: [PATCH 53/72] fix: nan-skipping sums and products keep a NaN produced
 by infinities

---
 src/ops/kernels/arithmetic.rs | 4 ++++
 src/ops/kernels/mod.rs        | 5 +++++
 src/ops/loops/contiguous.rs   | 6 +++---
 src/ops/loops/strided.rs      | 6 +++---
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index 5cce945..e436fd8 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -220,6 +220,8 @@ macro_rules! impl_nan_reduce {
             fn combine(acc: $T, v: $T) -> $T {
                 if v.is_nan() { acc } else { acc + v }
             }
+            #[inline(always)]
+            fn merge(a: $T, b: $T) -> $T { a + b }
         }
         impl ReduceKernel<$T> for NanProd {
             #[inline(always)]
@@ -228,6 +230,8 @@ macro_rules! impl_nan_reduce {
             fn combine(acc: $T, v: $T) -> $T {
                 if v.is_nan() { acc } else { acc * v }
             }
+            #[inline(always)]
+            fn merge(a: $T, b: $T) -> $T { a * b }
         }
         impl ReduceKernel<$T> for NanMax {
             #[inline(always)]
diff --git a/src/ops/kernels/mod.rs b/src/ops/kernels/mod.rs
index 6e3a830..e31979f 100644
--- a/src/ops/kernels/mod.rs
+++ b/src/ops/kernels/mod.rs
@@ -30,6 +30,11 @@ pub trait ReduceKernel<T>: Copy {
     fn init() -> T;
     /// Combine accumulator with new value.
     fn combine(acc: T, v: T) -> T;
+    /// Merge two partial accumulators (kernels that skip values must not skip a partial result).
+    #[inline(always)]
+    fn merge(a: T, b: T) -> T {
+        Self::combine(a, b)
+    }
 }
 
 /// Kernel for comparison operations (returns bool).
diff --git a/src/ops/loops/contiguous.rs b/src/ops/loops/contiguous.rs
index a410e04..a779d9d 100644
--- a/src/ops/loops/contiguous.rs
+++ b/src/ops/loops/contiguous.rs
@@ -118,9 +118,9 @@ pub fn reduce<T: Copy, K: ReduceKernel<T>>(data: &[T], _kernel: K) -> T {
     }
 
     // Combine 8 accumulators in tree pattern (matches NumPy)
-    let mut acc = K::combine(
-        K::combine(K::combine(r[0], r[1]), K::combine(r[2], r[3])),
-        K::combine(K::combine(r[4], r[5]), K::combine(r[6], r[7])),
+    let mut acc = K::merge(
+        K::merge(K::merge(r[0], r[1]), K::merge(r[2], r[3])),
+        K::merge(K::merge(r[4], r[5]), K::merge(r[6], r[7])),
     );
 
     // Handle remainder
diff --git a/src/ops/loops/strided.rs b/src/ops/loops/strided.rs
index 736234c..049ffdb 100644
--- a/src/ops/loops/strided.rs
+++ b/src/ops/loops/strided.rs
@@ -104,9 +104,9 @@ pub unsafe fn reduce_strided<T: Copy, K: ReduceKernel<T>>(
     }
 
     // Combine 8 accumulators in tree pattern (matches NumPy)
-    let mut acc = K::combine(
-        K::combine(K::combine(r[0], r[1]), K::combine(r[2], r[3])),
-        K::combine(K::combine(r[4], r[5]), K::combine(r[6], r[7])),
+    let mut acc = K::merge(
+        K::merge(K::merge(r[0], r[1]), K::merge(r[2], r[3])),
+        K::merge(K::merge(r[4], r[5]), K::merge(r[6], r[7])),
     );
 
     // Handle remainder
-- 
2.43.0


From 9761ae0b9af5b8d2df8ce58f55c9fb79f8265360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:11 +0000
Subject: [PATCH 54/72] fix: argpartition orders NaN last

---
 src/ops/array_methods/sorting.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops/array_methods/sorting.rs b/src/ops/array_methods/sorting.rs
index 4b458d6..e55362e 100644
--- a/src/ops/array_methods/sorting.rs
+++ b/src/ops/array_methods/sorting.rs
@@ -485,7 +485,7 @@ fn argpartition_impl(arr: &RumpyArray, kth: usize, axis: usize) -> RumpyArray {
                 indices.select_nth_unstable_by(kth, |&a, &b| {
                     let va = slice[a as usize];
                     let vb = slice[b as usize];
-                    va.partial_cmp(&vb).unwrap_or(std::cmp::Ordering::Equal)
+                    va.partial_cmp(&vb).unwrap_or_else(|| va.is_nan().cmp(&vb.is_nan()))
                 });
             }
             DTypeKind::Float32 => {
@@ -493,7 +493,7 @@ fn argpartition_impl(arr: &RumpyArray, kth: usize, axis: usize) -> RumpyArray {
                 indices.select_nth_unstable_by(kth, |&a, &b| {
                     let va = slice[a as usize];
                     let vb = slice[b as usize];
-                    va.partial_cmp(&vb).unwrap_or(std::cmp::Ordering::Equal)
+                    va.partial_cmp(&vb).unwrap_or_else(|| va.is_nan().cmp(&vb.is_nan()))
                 });
             }
             DTypeKind::Int64 => {
-- 
2.43.0


From 8ea20cf15f00d3948a46803f90dfd74e11be73a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:25 +0000
Subject: [PATCH 55/72] fix: delete, multi_dot and block of one array return a
 new array

---
 src/array/manipulation.rs | 8 ++++----
 src/ops/linalg.rs         | 2 +-
 src/python/misc.rs        | 6 +++++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 101aa7b..73c5ab2 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -1152,11 +1152,11 @@ pub fn delete(arr: &RumpyArray, index: isize, axis: Option<isize>) -> Option<Rum
             let flat = ravel_arr(arr);
             let size = flat.size();
             if size == 0 {
-                return Some(flat);
+                return Some(flat.copy());
             }
             let idx = if index < 0 { (size as isize + index).max(0) as usize } else { index as usize };
             if idx >= size {
-                return Some(flat);
+                return Some(flat.copy());
             }
 
             let before = if idx > 0 { flat.slice_axis(0, 0, idx as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
@@ -1173,11 +1173,11 @@ pub fn delete(arr: &RumpyArray, index: isize, axis: Option<isize>) -> Option<Rum
 
             let axis_len = arr.shape()[axis];
             if axis_len == 0 {
-                return Some(arr.clone());
+                return Some(arr.copy());
             }
             let idx = if index < 0 { (axis_len as isize + index).max(0) as usize } else { index as usize };
             if idx >= axis_len {
-                return Some(arr.clone());
+                return Some(arr.copy());
             }
 
             let before = arr.slice_axis(axis, 0, idx as isize, 1);
diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index 14e5c6f..93b3b3e 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -1137,7 +1137,7 @@ pub fn multi_dot(arrays: &[&RumpyArray]) -> Option<RumpyArray> {
         return None;
     }
     if arrays.len() == 1 {
-        return Some(arrays[0].clone());
+        return Some(arrays[0].copy());
     }
 
     // For 2 or 3 matrices, simple left-to-right is fine
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 196a086..7112040 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -163,7 +163,11 @@ pub fn unstack(py: Python<'_>, x: &PyRumpyArray, axis: isize) -> PyResult<Py<PyT
 #[pyfunction]
 pub fn block(arrays: &Bound<'_, PyAny>) -> PyResult<PyRumpyArray> {
     // Recursively process the nested list structure
-    let result = process_block(arrays, 0)?;
+    let mut result = process_block(arrays, 0)?;
+    if std::sync::Arc::get_mut(result.buffer_mut()).is_none() {
+        // A single block is still a new array, not the block itself
+        result = result.copy();
+    }
     Ok(PyRumpyArray::new(result))
 }
 
-- 
2.43.0


From 299fc2c58ea2dcd0888056196cff1eb06da7a09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:25 +0000
Subject: [PATCH 56/72] fix: digitize refuses bins that are not one-dimensional

---
 src/python/indexing.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index cc9e7e7..3bb3c22 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -678,8 +678,11 @@ pub fn mask_indices(
 /// Return the indices of the bins to which each value in input belongs.
 #[pyfunction]
 #[pyo3(signature = (x, bins, right=false))]
-pub fn digitize(x: &PyRumpyArray, bins: &PyRumpyArray, right: bool) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::indexing::digitize(&x.inner, &bins.inner, right))
+pub fn digitize(x: &PyRumpyArray, bins: &PyRumpyArray, right: bool) -> PyResult<PyRumpyArray> {
+    if bins.inner.ndim() != 1 {
+        return Err(pyo3::exceptions::PyValueError::new_err("bins must be one-dimensional"));
+    }
+    Ok(PyRumpyArray::new(crate::ops::indexing::digitize(&x.inner, &bins.inner, right)))
 }
 
 /// Pack binary-valued array into uint8 array.
-- 
2.43.0


From 98add990c0926839544f430999b8417a48035f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:25 +0000
Subject: [PATCH 57/72] fix: is_busday reads only datetime64 arrays, in their
 unit

---
 src/python/datetime.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/datetime.rs b/src/python/datetime.rs
index c9bab52..040c0a9 100644
--- a/src/python/datetime.rs
+++ b/src/python/datetime.rs
@@ -226,12 +226,16 @@ pub fn is_busday(py: Python<'_>, dates: &Bound<'_, PyAny>, busdaycal: Option<&Bu
     // Handle rumpy array
     if let Ok(arr) = dates.extract::<PyRef<'_, PyRumpyArray>>() {
         let inner = &arr.inner;
+        let DTypeKind::DateTime64(unit) = inner.dtype().kind() else {
+            return Err(pyo3::exceptions::PyTypeError::new_err("dates must be a datetime64 array"));
+        };
         let mut result = RumpyArray::zeros(inner.shape().to_vec(), DType::bool());
         let src_ptr = inner.data_ptr() as *const i64;
         let dst_ptr = std::sync::Arc::get_mut(result.buffer_mut()).unwrap().as_mut_ptr() as *mut u8;
 
         for (i, offset) in inner.iter_offsets().enumerate() {
-            let days = unsafe { *src_ptr.offset(offset as isize / 8) };
+            let value = unsafe { *src_ptr.offset(offset as isize / 8) };
+            let days = convert_datetime64(value, unit, TimeUnit::Days);
             unsafe { *dst_ptr.add(i) = if is_business_day(days, cal) { 1 } else { 0 }; }
         }
         return Ok(PyRumpyArray::new(result).into_pyobject(py)?.into_any().unbind());
-- 
2.43.0


From 96c51e5a8145f407a902ef3146dce7fbb83f693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:31 +0000
Subject: [PATCH 58/72] fix: ediff1d converts prepended and appended arrays;
 unwrap of a 0-d array is a copy

---
 src/python/misc.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/python/misc.rs b/src/python/misc.rs
index 7112040..50a1db4 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -679,8 +679,12 @@ pub fn ediff1d(
     let dtype = inner.dtype();
 
     // Get begin/end array references or scalars
-    let begin_arr: Option<pyo3::PyRef<'_, PyRumpyArray>> = to_begin.and_then(|v| v.extract().ok());
-    let end_arr: Option<pyo3::PyRef<'_, PyRumpyArray>> = to_end.and_then(|v| v.extract().ok());
+    let as_array = |v: Option<&Bound<'_, pyo3::PyAny>>| -> Option<PyRumpyArray> {
+        let arr: pyo3::PyRef<'_, PyRumpyArray> = v?.extract().ok()?;
+        Some(PyRumpyArray::new(arr.inner.astype(dtype.clone())))
+    };
+    let begin_arr = as_array(to_begin);
+    let end_arr = as_array(to_end);
     let begin_scalar: Option<f64> = if begin_arr.is_none() { to_begin.and_then(|v| v.extract().ok()) } else { None };
     let end_scalar: Option<f64> = if end_arr.is_none() { to_end.and_then(|v| v.extract().ok()) } else { None };
 
@@ -825,7 +829,7 @@ pub fn unwrap(
     let ndim = inner.ndim();
 
     if ndim == 0 {
-        return Ok(PyRumpyArray::new(inner.clone()));
+        return Ok(PyRumpyArray::new(inner.copy()));
     }
 
     let axis = resolve_axis(axis, ndim)?;
-- 
2.43.0


From 407c61ca3a466b8ecee32e680a945c82639e92c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:16 +0000
Subject: [PATCH 59/72] fix: transpose refuses axes that are not a permutation

---
 src/python/shape.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/python/shape.rs b/src/python/shape.rs
index 944d76c..6aca922 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -102,10 +102,10 @@ pub fn flatten(a: &PyRumpyArray) -> PyRumpyArray {
 /// Permute the dimensions of an array.
 #[pyfunction]
 #[pyo3(signature = (a, axes=None))]
-pub fn transpose(a: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyRumpyArray {
+pub fn transpose(a: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyResult<PyRumpyArray> {
     match axes {
-        Some(ax) => PyRumpyArray::new(a.inner.transpose_axes(&ax)),
-        None => PyRumpyArray::new(a.inner.transpose()),
+        Some(ax) => permute_dims(a, ax),
+        None => Ok(PyRumpyArray::new(a.inner.transpose())),
     }
 }
 
@@ -883,8 +883,13 @@ pub fn concat(arrays: &Bound<'_, PyList>, axis: usize) -> PyResult<PyRumpyArray>
 
 /// Permute the dimensions of an array (NumPy 2.0 alias for transpose).
 #[pyfunction]
-pub fn permute_dims(a: &PyRumpyArray, axes: Vec<usize>) -> PyRumpyArray {
-    PyRumpyArray::new(a.inner.transpose_axes(&axes))
+pub fn permute_dims(a: &PyRumpyArray, axes: Vec<usize>) -> PyResult<PyRumpyArray> {
+    let mut sorted = axes.clone();
+    sorted.sort_unstable();
+    if !sorted.into_iter().eq(0..a.inner.ndim()) {
+        return Err(pyo3::exceptions::PyValueError::new_err("axes must be a permutation of the array's axes"));
+    }
+    Ok(PyRumpyArray::new(a.inner.transpose_axes(&axes)))
 }
 
 /// Transpose the last two axes of an array.
-- 
2.43.0


From b3dcdf241662e6bccac99b6e5555cebc9590f70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:42 +0000
Subject: [PATCH 60/72] fix: matmul aligns batch axes at their end when
 operands have different ndim

---
 src/array/views.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index f0d4693..524f841 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -230,13 +230,13 @@ impl RumpyArray {
 
         // Compute byte offset for this position in loop dims
         let mut offset_delta: isize = 0;
-        for (i, &idx) in loop_indices.iter().enumerate() {
-            if i < my_loop_ndim {
-                // Handle broadcasting: if loop dim is 1, use index 0
-                let dim_size = self.shape[i];
-                let actual_idx = if dim_size == 1 { 0 } else { idx };
-                offset_delta += (actual_idx as isize) * self.strides[i];
-            }
+        // Broadcasting aligns loop dims at their end: leading indices this array lacks do not apply
+        let skip = loop_indices.len().saturating_sub(my_loop_ndim);
+        for (i, &idx) in loop_indices[skip..].iter().enumerate() {
+            // Handle broadcasting: if loop dim is 1, use index 0
+            let dim_size = self.shape[i];
+            let actual_idx = if dim_size == 1 { 0 } else { idx };
+            offset_delta += (actual_idx as isize) * self.strides[i];
         }
 
         // Core shape and strides are the trailing dimensions
-- 
2.43.0


From 724806eb4e2d43d34fdf7e3bfabf1be06bec4968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:38 +0000
Subject: [PATCH 61/72] fix: cumulative_sum/cumulative_prod with an initial
 value wrote outside an empty result

---
 src/ops/array_methods/cumulative.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops/array_methods/cumulative.rs b/src/ops/array_methods/cumulative.rs
index cd5c6b8..5b46661 100644
--- a/src/ops/array_methods/cumulative.rs
+++ b/src/ops/array_methods/cumulative.rs
@@ -318,7 +318,7 @@ impl RumpyArray {
             .map(|(_, &s)| s)
             .collect();
 
-        let outer_size: usize = outer_shape.iter().product::<usize>().max(1);
+        let outer_size: usize = outer_shape.iter().product();
         let mut outer_indices = vec![0usize; outer_shape.len()];
 
         for _ in 0..outer_size {
@@ -374,7 +374,7 @@ impl RumpyArray {
             .map(|(_, &s)| s)
             .collect();
 
-        let outer_size: usize = outer_shape.iter().product::<usize>().max(1);
+        let outer_size: usize = outer_shape.iter().product();
         let mut outer_indices = vec![0usize; outer_shape.len()];
 
         for _ in 0..outer_size {
-- 
2.43.0


From c807b4270944abeb74c93c04c66b5ae50a56be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:52 +0000
Subject: [PATCH 62/72] fix: arrays from Python numbers and lists hold every
 value exactly or are refused

---
 src/python/creation.rs    | 366 +++++++++++++++-----------------------
 src/python/pyarray/mod.rs |  22 +--
 2 files changed, 153 insertions(+), 235 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index e7c8fbb..ab37dea 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -73,10 +73,18 @@ pub fn eye(n: usize, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray>
 /// Create array filled with given value.
 #[pyfunction]
 #[pyo3(signature = (shape, fill_value, dtype=None))]
-pub fn full(shape: &Bound<'_, PyAny>, fill_value: f64, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
+pub fn full(shape: &Bound<'_, PyAny>, fill_value: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     let shape = parse_shape(shape)?;
     let dtype = resolve_dtype(dtype, "float64")?;
-    Ok(PyRumpyArray::new(RumpyArray::full(shape, fill_value, dtype)))
+    filled(shape, fill_value, dtype)
+}
+
+/// Array of the given dtype with every element set to a Python number.
+fn filled(shape: Vec<usize>, value: &Bound<'_, PyAny>, dtype: DType) -> PyResult<PyRumpyArray> {
+    let value = super::pyarray::scalar_array(value, dtype.clone())?;
+    let arr = RumpyArray::zeros(shape, dtype);
+    arr.assign(&value);
+    Ok(PyRumpyArray::new(arr))
 }
 
 /// Create uninitialized array.
@@ -129,13 +137,13 @@ pub fn empty_like(a: &PyRumpyArray, dtype: Option<&Bound<'_, PyAny>>) -> PyResul
 /// Create array filled with given value, with same shape and dtype as input.
 #[pyfunction]
 #[pyo3(signature = (a, fill_value, dtype=None))]
-pub fn full_like(a: &PyRumpyArray, fill_value: f64, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
+pub fn full_like(a: &PyRumpyArray, fill_value: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     let shape = a.inner.shape().to_vec();
     let dtype = match dtype {
         Some(dt) => parse_dtype_any(&dt)?,
         None => a.inner.dtype(),
     };
-    Ok(PyRumpyArray::new(RumpyArray::full(shape, fill_value, dtype)))
+    filled(shape, fill_value, dtype)
 }
 
 /// Create an n x n identity matrix.
@@ -338,12 +346,10 @@ pub fn array_impl(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'
     }
 
     // Try to iterate as a sequence
-    if let Ok(seq) = obj.try_iter() {
-        let items: Vec<f64> = seq
-            .map(|item| item.and_then(|i| i.extract::<f64>()))
-            .collect::<PyResult<Vec<f64>>>()?;
-        let dtype = resolve_dtype(dtype, "float64")?;
-        return Ok(PyRumpyArray::new(RumpyArray::from_vec(items, dtype)));
+    let text = obj.is_instance_of::<pyo3::types::PyString>() || obj.is_instance_of::<pyo3::types::PyBytes>();
+    if let (false, Ok(seq)) = (text, obj.try_iter()) {
+        let items = seq.collect::<PyResult<Vec<_>>>()?;
+        return from_list(&PyList::new(py, items)?, dtype);
     }
 
     Err(pyo3::exceptions::PyTypeError::new_err(
@@ -433,248 +439,170 @@ fn from_array_interface(
     Ok(convert(arr))
 }
 
-/// Infer dtype from first element of a Python list.
-fn infer_dtype_from_list(list: &Bound<'_, PyList>) -> Option<DType> {
-    if list.is_empty() {
-        return Some(DType::float64());
-    }
-    let first = list.get_item(0).ok()?;
-    // Recurse into nested lists
-    if let Ok(sublist) = first.downcast::<PyList>() {
-        return infer_dtype_from_list(sublist);
-    }
-    // Check type of first element - order matters: bool before int!
-    if first.is_instance_of::<pyo3::types::PyBool>() {
-        return Some(DType::bool());
-    }
-    if first.is_instance_of::<pyo3::types::PyInt>() {
-        return Some(DType::int64());
-    }
-    if first.is_instance_of::<pyo3::types::PyFloat>() {
-        return Some(DType::float64());
-    }
-    // Check for strings - compute max length from all elements
-    if first.is_instance_of::<pyo3::types::PyString>() {
-        let max_len = compute_max_string_length(list).unwrap_or(0);
-        return Some(DType::str_(max_len));
-    }
-    // Check for bytes
-    if first.is_instance_of::<pyo3::types::PyBytes>() {
-        let max_len = compute_max_bytes_length(list).unwrap_or(0);
-        return Some(DType::bytes_(max_len));
-    }
-    Some(DType::float64())
-}
-
-/// Compute the maximum string length in a (possibly nested) list.
-fn compute_max_string_length(list: &Bound<'_, PyList>) -> Option<usize> {
-    let mut max_len = 0usize;
-    for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            if let Some(sub_max) = compute_max_string_length(sublist) {
-                max_len = max_len.max(sub_max);
-            }
-        } else if let Ok(s) = item.extract::<String>() {
-            max_len = max_len.max(s.chars().count());
-        }
-    }
-    Some(max_len)
-}
-
-/// Compute the maximum bytes length in a (possibly nested) list.
-fn compute_max_bytes_length(list: &Bound<'_, PyList>) -> Option<usize> {
-    let mut max_len = 0usize;
-    for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            if let Some(sub_max) = compute_max_bytes_length(sublist) {
-                max_len = max_len.max(sub_max);
-            }
-        } else if let Ok(b) = item.extract::<Vec<u8>>() {
-            max_len = max_len.max(b.len());
-        }
-    }
-    Some(max_len)
-}
-
 /// Create array from Python list.
 pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     use crate::array::dtype::{DTypeKind, parse_datetime64};
+    use pyo3::types::{PyBytes, PyString};
 
-    let dtype = match dtype {
-        Some(dt) => parse_dtype_any(dt)?,
-        None => infer_dtype_from_list(list).unwrap_or(DType::float64()),
-    };
+    let dtype = dtype.map(|dt| parse_dtype_any(dt)).transpose()?;
 
-    // Check if nested (2D+)
-    if list.is_empty() {
-        return Ok(PyRumpyArray::new(RumpyArray::zeros(vec![0], dtype)));
-    }
+    // Take the items before converting any of them: conversions may run other code
+    let (shape, items) = flatten_nested_list(list)?;
 
-    let first = list.get_item(0)?;
-
-    // Handle datetime64 dtype - parse string inputs
-    if let DTypeKind::DateTime64(unit) = dtype.kind() {
-        if first.downcast::<PyList>().is_ok() {
-            let (shape, strings) = flatten_nested_list_str(list)?;
-            let data: Vec<i64> = strings.iter().map(|s| parse_datetime64(s, unit)).collect();
-            return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype)));
-        }
-        // Try to extract strings and parse them
-        let strings: Result<Vec<String>, _> = list.iter().map(|item| item.extract::<String>()).collect();
-        if let Ok(strings) = strings {
-            let data: Vec<i64> = strings.iter().map(|s| parse_datetime64(s, unit)).collect();
-            return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64(data, dtype)));
+    // Strings and bytes get a dtype that holds the longest
+    let dtype = match (&dtype, items.first()) {
+        (None, Some(first)) if first.is_instance_of::<PyString>() => {
+            let strings = items.iter().map(|item| item.extract::<String>()).collect::<PyResult<Vec<_>>>()?;
+            let max_len = strings.iter().map(|s| s.chars().count()).max().unwrap_or(0);
+            Some(DType::str_(max_len))
         }
-        // Fall back to integer extraction
-        let data: Vec<i64> = list.iter().map(|item| item.extract::<i64>()).collect::<PyResult<Vec<_>>>()?;
-        return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64(data, dtype)));
-    }
-
-    // Handle timedelta64 dtype
-    if let DTypeKind::TimeDelta64(_unit) = dtype.kind() {
-        if first.downcast::<PyList>().is_ok() {
-            let (shape, data) = flatten_nested_list_i64(list)?;
-            return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype)));
+        (None, Some(first)) if first.is_instance_of::<PyBytes>() => {
+            let bytes = items.iter().map(|item| item.extract::<Vec<u8>>()).collect::<PyResult<Vec<_>>>()?;
+            let max_len = bytes.iter().map(|b| b.len()).max().unwrap_or(0);
+            Some(DType::bytes_(max_len))
         }
-        let data: Vec<i64> = list.iter().map(|item| item.extract::<i64>()).collect::<PyResult<Vec<_>>>()?;
-        return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64(data, dtype)));
-    }
+        _ => dtype,
+    };
 
-    // Handle string dtype
-    if let DTypeKind::Str(_) = dtype.kind() {
-        if first.downcast::<PyList>().is_ok() {
-            let (shape, data) = flatten_nested_list_str(list)?;
-            return Ok(PyRumpyArray::new(RumpyArray::from_vec_str_with_shape(data, shape, dtype)));
+    match dtype.as_ref().map(|dt| dt.kind()) {
+        Some(DTypeKind::DateTime64(unit)) => {
+            // Parse strings, or take integers as they are
+            let strings: PyResult<Vec<String>> = items.iter().map(|item| item.extract::<String>()).collect();
+            let data = match strings {
+                Ok(strings) => strings.iter().map(|s| parse_datetime64(s, unit)).collect(),
+                Err(_) => items.iter().map(|item| item.extract::<i64>()).collect::<PyResult<Vec<_>>>()?,
+            };
+            Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype.unwrap())))
         }
-        let data: Vec<String> = list
-            .iter()
-            .map(|item| item.extract::<String>())
-            .collect::<PyResult<Vec<String>>>()?;
-        return Ok(PyRumpyArray::new(RumpyArray::from_vec_str(data, dtype)));
-    }
-
-    // Handle bytes dtype
-    if let DTypeKind::Bytes(_) = dtype.kind() {
-        if first.downcast::<PyList>().is_ok() {
-            let (shape, data) = flatten_nested_list_bytes(list)?;
-            return Ok(PyRumpyArray::new(RumpyArray::from_vec_bytes_with_shape(data, shape, dtype)));
+        Some(DTypeKind::TimeDelta64(_)) => {
+            let data = items.iter().map(|item| item.extract::<i64>()).collect::<PyResult<Vec<_>>>()?;
+            Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype.unwrap())))
         }
-        let data: Vec<Vec<u8>> = list
-            .iter()
-            .map(|item| item.extract::<Vec<u8>>())
-            .collect::<PyResult<Vec<Vec<u8>>>>()?;
-        return Ok(PyRumpyArray::new(RumpyArray::from_vec_bytes(data, dtype)));
-    }
-
-    if first.downcast::<PyList>().is_ok() {
-        // Nested list - recursively get shape and flatten
-        // Try integer path for integer dtypes, fall back to f64
-        if dtype.is_integer() {
-            if let Ok((shape, data)) = flatten_nested_list_i64(list) {
-                return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype)));
-            }
+        Some(DTypeKind::Str(_)) => {
+            let data = items.iter().map(|item| item.extract::<String>()).collect::<PyResult<Vec<_>>>()?;
+            Ok(PyRumpyArray::new(RumpyArray::from_vec_str_with_shape(data, shape, dtype.unwrap())))
         }
-        let (shape, data) = flatten_nested_list(list)?;
-        return Ok(PyRumpyArray::new(RumpyArray::from_vec_with_shape(data, shape, dtype)));
-    }
-
-    // 1D list - try integer extraction for integer dtypes, fall back to f64
-    if dtype.is_integer() {
-        // Try extracting as i64 first (preserves large int precision)
-        let data_i64: Result<Vec<i64>, _> = list
-            .iter()
-            .map(|item| item.extract::<i64>())
-            .collect();
-        if let Ok(data) = data_i64 {
-            return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64(data, dtype)));
+        Some(DTypeKind::Bytes(_)) => {
+            let data = items.iter().map(|item| item.extract::<Vec<u8>>()).collect::<PyResult<Vec<_>>>()?;
+            Ok(PyRumpyArray::new(RumpyArray::from_vec_bytes_with_shape(data, shape, dtype.unwrap())))
         }
-        // Fall back to f64 (handles float inputs like [5.0, 2.0, ...])
+        _ => numbers_to_array(&items, shape, dtype),
     }
-    let data: Vec<f64> = list
-        .iter()
-        .map(|item| item.extract::<f64>())
-        .collect::<PyResult<Vec<f64>>>()?;
-    Ok(PyRumpyArray::new(RumpyArray::from_vec(data, dtype)))
 }
 
-/// Flatten nested Python list, returning shape and data as f64.
-fn flatten_nested_list(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<f64>)> {
-    let mut shape = vec![list.len()];
-    let mut data = Vec::new();
+/// Array holding Python numbers in C order. Without a dtype, the first of bool, int64,
+/// uint64, float64 and complex128 that holds them all.
+pub(super) fn numbers_to_array(
+    items: &[Bound<'_, PyAny>],
+    shape: Vec<usize>,
+    dtype: Option<DType>,
+) -> PyResult<PyRumpyArray> {
+    use crate::array::dtype::DTypeKind;
+    use pyo3::types::{PyBool, PyComplex, PyFloat, PyInt};
 
-    for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            let (sub_shape, sub_data) = flatten_nested_list(sublist)?;
-            if shape.len() == 1 {
-                shape.extend(sub_shape);
+    let is_int = |item: &Bound<'_, PyAny>| {
+        item.is_instance_of::<PyInt>()
+            || !item.is_instance_of::<PyFloat>() && item.hasattr("__index__").unwrap_or(false)
+    };
+    let dtype = match dtype {
+        Some(dt) => dt,
+        None if items.is_empty() => DType::float64(),
+        None if items.iter().all(|i| i.is_instance_of::<PyBool>()) => DType::bool(),
+        None if items.iter().any(|i| i.is_instance_of::<PyComplex>()) => DType::complex128(),
+        None if !items.iter().all(is_int) => DType::float64(),
+        None => {
+            let values = items.iter().map(|i| i.extract::<i128>()).collect::<PyResult<Vec<_>>>()?;
+            let dtype = match values.iter().all(|&v| i64::try_from(v).is_ok()) {
+                true => DType::int64(),
+                false => DType::uint64(),
+            };
+            return integers_to_array(&values, shape, dtype);
+        }
+    };
+
+    if dtype.is_integer() {
+        let mut values = Vec::with_capacity(items.len());
+        for item in items {
+            if is_int(item) {
+                values.push(item.extract::<i128>()?);
+                continue;
             }
-            data.extend(sub_data);
-        } else {
-            data.push(item.extract::<f64>()?);
+            let v = item.extract::<f64>()?;
+            if !v.is_finite() {
+                return Err(pyo3::exceptions::PyValueError::new_err(format!(
+                    "cannot convert float {} to integer", v
+                )));
+            }
+            values.push(v as i128);
         }
+        return integers_to_array(&values, shape, dtype);
     }
 
-    Ok((shape, data))
-}
-
-/// Flatten nested Python list, returning shape and data as i64.
-fn flatten_nested_list_i64(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<i64>)> {
-    let mut shape = vec![list.len()];
-    let mut data = Vec::new();
-
-    for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            let (sub_shape, sub_data) = flatten_nested_list_i64(sublist)?;
-            if shape.len() == 1 {
-                shape.extend(sub_shape);
-            }
-            data.extend(sub_data);
-        } else {
-            data.push(item.extract::<i64>()?);
+    if matches!(dtype.kind(), DTypeKind::Complex64 | DTypeKind::Complex128) {
+        let mut arr = RumpyArray::zeros(shape, dtype.clone());
+        let ptr = std::sync::Arc::get_mut(arr.buffer_mut()).expect("unique").as_mut_ptr();
+        for (i, item) in items.iter().enumerate() {
+            let (re, im) = match item.downcast::<PyComplex>() {
+                Ok(z) => (z.real(), z.imag()),
+                Err(_) => (item.extract::<f64>()?, 0.0),
+            };
+            unsafe { dtype.ops().write_complex(ptr, i, re, im); }
         }
+        return Ok(PyRumpyArray::new(arr));
     }
 
-    Ok((shape, data))
+    let data = items.iter().map(|item| item.extract::<f64>()).collect::<PyResult<Vec<f64>>>()?;
+    Ok(PyRumpyArray::new(RumpyArray::from_vec_with_shape(data, shape, dtype)))
 }
 
-/// Flatten nested Python list, returning shape and data as String.
-fn flatten_nested_list_str(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<String>)> {
-    let mut shape = vec![list.len()];
-    let mut data = Vec::new();
-
-    for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            let (sub_shape, sub_data) = flatten_nested_list_str(sublist)?;
-            if shape.len() == 1 {
-                shape.extend(sub_shape);
-            }
-            data.extend(sub_data);
-        } else {
-            data.push(item.extract::<String>()?);
-        }
+/// Array of an integer dtype, refusing values it cannot hold.
+fn integers_to_array(values: &[i128], shape: Vec<usize>, dtype: DType) -> PyResult<PyRumpyArray> {
+    use crate::array::dtype::DTypeKind;
+    let bits = 8 * dtype.itemsize() as u32;
+    let (lo, hi) = match dtype.kind() {
+        DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64 => (0, (1i128 << bits) - 1),
+        _ => (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1),
+    };
+    if let Some(v) = values.iter().find(|&&v| v < lo || v > hi) {
+        return Err(pyo3::exceptions::PyOverflowError::new_err(format!(
+            "Python integer {} out of bounds for {}", v, dtype.ops().name()
+        )));
     }
-
-    Ok((shape, data))
+    let data = values.iter().map(|&v| v as i64).collect();
+    Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype)))
 }
 
-/// Flatten nested Python list, returning shape and data as Vec<u8> (bytes).
-fn flatten_nested_list_bytes(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<Vec<u8>>)> {
-    let mut shape = vec![list.len()];
-    let mut data = Vec::new();
+/// Deepest nesting accepted (a list may contain itself).
+const MAX_DIMS: usize = 64;
 
-    for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            let (sub_shape, sub_data) = flatten_nested_list_bytes(sublist)?;
-            if shape.len() == 1 {
-                shape.extend(sub_shape);
-            }
-            data.extend(sub_data);
-        } else {
-            data.push(item.extract::<Vec<u8>>()?);
+/// Flatten nested Python lists and tuples, returning shape and items in C order.
+fn flatten_nested_list<'py>(list: &Bound<'py, PyList>) -> PyResult<(Vec<usize>, Vec<Bound<'py, PyAny>>)> {
+    let mut shape = vec![list.len()];
+    let mut items: Vec<Bound<'py, PyAny>> = list.iter().collect();
+    let as_list = |item: &Bound<'py, PyAny>| match item.downcast::<PyList>() {
+        Ok(sub) => Some(sub.clone()),
+        Err(_) => item.downcast::<pyo3::types::PyTuple>().ok().map(|t| t.to_list()),
+    };
+    while let Some(first) = items.first().and_then(&as_list) {
+        if shape.len() == MAX_DIMS {
+            return Err(pyo3::exceptions::PyValueError::new_err("the lists are nested too deeply"));
+        }
+        let mut next = Vec::new();
+        for item in &items {
+            let sub = as_list(item).filter(|sub| sub.len() == first.len()).ok_or_else(ragged)?;
+            next.extend(sub.iter());
         }
+        shape.push(first.len());
+        items = next;
     }
+    if items.iter().any(|item| as_list(item).is_some()) {
+        return Err(ragged());
+    }
+    Ok((shape, items))
+}
 
-    Ok((shape, data))
+fn ragged() -> PyErr {
+    pyo3::exceptions::PyValueError::new_err("setting an array element with a sequence: the nested lists have an inhomogeneous shape")
 }
 
 /// Parse dtype from numpy typestr.
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 2ef1b82..ca0c9ef 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -1118,22 +1118,12 @@ fn element_object(py: Python<'_>, arr: &RumpyArray, indices: &[usize]) -> PyResu
 }
 
 /// A one-element array of the given dtype holding a Python number.
-fn scalar_array(value: &Bound<'_, PyAny>, dtype: DType) -> PyResult<RumpyArray> {
-    let wide = matches!(dtype.kind(), DTypeKind::Int64 | DTypeKind::Uint64);
-    if wide && value.is_instance_of::<PyInt>() {
-        let bits = match value.extract::<i64>() {
-            Ok(v) if v.unsigned_abs() > EXACT => Some(v),
-            Ok(_) => None,
-            Err(_) => value.extract::<u64>().ok().map(|v| v as i64),
-        };
-        if let Some(bits) = bits {
-            return Ok(RumpyArray::from_vec_i64(vec![bits], dtype));
-        }
-    }
-    if matches!(dtype.kind(), DTypeKind::Complex64 | DTypeKind::Complex128) {
-        if let Ok(z) = value.downcast::<PyComplex>() {
-            return Ok(RumpyArray::full_complex(vec![1], z.real(), z.imag(), dtype));
-        }
+pub(super) fn scalar_array(value: &Bound<'_, PyAny>, dtype: DType) -> PyResult<RumpyArray> {
+    let complex = matches!(dtype.kind(), DTypeKind::Complex64 | DTypeKind::Complex128);
+    if dtype.is_integer() && value.extract::<PyRef<'_, PyRumpyArray>>().is_err()
+        || complex && value.is_instance_of::<PyComplex>()
+    {
+        return Ok(super::creation::numbers_to_array(&[value.clone()], vec![1], Some(dtype))?.inner);
     }
     match value.extract::<f64>() {
         Ok(v) => Ok(RumpyArray::full(vec![1], v, dtype)),
-- 
2.43.0


From 3dab97c233ab421e1dff302d1b435c08956864d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:13 +0000
Subject: [PATCH 63/72] fix: functions taking callbacks pass exact values, keep
 every result and check their number and shape

---
 src/python/functional.rs  | 410 +++++++++++++++-----------------------
 src/python/misc.rs        |  48 ++---
 src/python/pyarray/mod.rs |   2 +-
 3 files changed, 176 insertions(+), 284 deletions(-)

diff --git a/src/python/functional.rs b/src/python/functional.rs
index 5941cc5..a79a1c1 100644
--- a/src/python/functional.rs
+++ b/src/python/functional.rs
@@ -2,10 +2,11 @@
 // apply_along_axis, apply_over_axes, vectorize, frompyfunc
 
 use pyo3::prelude::*;
-use pyo3::types::{PyDict, PyList, PyTuple};
+use pyo3::types::{PyComplex, PyDict, PyFloat, PyInt, PyList, PyTuple};
 
-use crate::array::{increment_indices, DType, RumpyArray};
+use crate::array::{increment_indices, promote_dtype, DType, RumpyArray};
 use super::{PyRumpyArray, creation, parse_dtype};
+use super::pyarray::element_object;
 
 /// Helper to compute indices from flat index
 fn flat_to_indices(flat_idx: usize, shape: &[usize]) -> Vec<usize> {
@@ -65,97 +66,71 @@ pub fn apply_along_axis(
         return Ok(PyRumpyArray::new(RumpyArray::zeros(out_shape, arr.dtype())));
     }
 
-    // Extract 1D slices and apply function
+    // Apply the function to a copy of each 1D slice
     let mut results: Vec<PyObject> = Vec::with_capacity(out_size);
     let mut out_indices = vec![0usize; out_shape.len()];
 
     for _ in 0..out_size {
-        // Extract 1D slice along axis using efficient stride-based access
-        let slice_data = arr.get_slice_along_axis(axis, &out_indices);
-
-        // Create rumpy array from slice
-        let slice_arr = RumpyArray::from_vec(slice_data, arr.dtype());
-        let py_slice = PyRumpyArray::new(slice_arr);
+        let mut start = out_indices.clone();
+        start.insert(axis, 0);
+        let slice = arr.view_with(arr.byte_offset_for(&start), vec![axis_len], vec![arr.strides()[axis]]);
+        let py_slice = PyRumpyArray::new(slice.copy());
 
         // Build args tuple: (slice, *args)
-        let call_args = if args.is_empty() {
-            PyTuple::new(py, [py_slice.into_pyobject(py)?.into_any()])?
-        } else {
-            let mut all_args: Vec<Bound<'_, PyAny>> = vec![py_slice.into_pyobject(py)?.into_any()];
-            for arg in args.iter() {
-                all_args.push(arg.clone());
-            }
-            PyTuple::new(py, all_args)?
-        };
+        let mut all_args: Vec<Bound<'_, PyAny>> = vec![py_slice.into_pyobject(py)?.into_any()];
+        all_args.extend(args.iter());
 
         // Call function
-        let result = func1d.call(&call_args, kwargs)?;
+        let result = func1d.call(PyTuple::new(py, all_args)?, kwargs)?;
         results.push(result.unbind());
 
         increment_indices(&mut out_indices, &out_shape);
     }
 
-    // Check first result to determine output shape
-    let first = results[0].bind(py);
-
-    // If result is scalar, output shape is out_shape
-    // If result is array, output shape is out_shape + result_shape
-    if let Ok(scalar) = first.extract::<f64>() {
-        // Scalar output - build array from scalars
-        let mut out_data: Vec<f64> = Vec::with_capacity(out_size);
-        out_data.push(scalar);
-        for r in results.iter().skip(1) {
-            out_data.push(r.bind(py).extract::<f64>()?);
-        }
-        let out = RumpyArray::from_vec(out_data, arr.dtype());
-        let out = out.reshape(out_shape).ok_or_else(||
-            pyo3::exceptions::PyValueError::new_err("reshape failed")
-        )?;
-        Ok(PyRumpyArray::new(out))
-    } else if let Ok(arr_result) = first.extract::<PyRef<'_, PyRumpyArray>>() {
-        // Rumpy array output
-        let result_shape = arr_result.inner.shape().to_vec();
-        let result_size: usize = result_shape.iter().product();
-
-        // Final shape is out_shape + result_shape
-        let mut final_shape = out_shape.clone();
-        final_shape.extend(&result_shape);
-
-        let mut out_data: Vec<f64> = Vec::with_capacity(out_size * result_size);
-        for r in results.iter() {
-            let arr_r: PyRef<'_, PyRumpyArray> = r.bind(py).extract()?;
-            out_data.extend(arr_r.inner.to_vec());
-        }
-
-        let out = RumpyArray::from_vec(out_data, arr.dtype());
-        let out = out.reshape(final_shape).ok_or_else(||
-            pyo3::exceptions::PyValueError::new_err("reshape failed")
-        )?;
-        Ok(PyRumpyArray::new(out))
-    } else {
-        // Try to convert through asarray (handles numpy arrays, lists, etc.)
-        let first_arr = creation::asarray(py, &first, None)?;
-        let result_shape = first_arr.inner.shape().to_vec();
-        let result_size: usize = result_shape.iter().product();
-
-        // Final shape is out_shape + result_shape
-        let mut final_shape = out_shape.clone();
-        final_shape.extend(&result_shape);
-
-        let mut out_data: Vec<f64> = Vec::with_capacity(out_size * result_size);
-        out_data.extend(first_arr.inner.to_vec());
-
-        for r in results.iter().skip(1) {
-            let arr_r = creation::asarray(py, r.bind(py), None)?;
-            out_data.extend(arr_r.inner.to_vec());
-        }
+    // Scalars give an array of the outer shape
+    let is_number = |r: &PyObject| {
+        let r = r.bind(py);
+        r.is_instance_of::<PyFloat>() || r.is_instance_of::<PyInt>() || r.is_instance_of::<PyComplex>()
+    };
+    if results.iter().all(is_number) {
+        let items: Vec<Bound<'_, PyAny>> = results.iter().map(|r| r.bind(py).clone()).collect();
+        return creation::numbers_to_array(&items, out_shape, None);
+    }
 
-        let out = RumpyArray::from_vec(out_data, arr.dtype());
-        let out = out.reshape(final_shape).ok_or_else(||
-            pyo3::exceptions::PyValueError::new_err("reshape failed")
-        )?;
-        Ok(PyRumpyArray::new(out))
+    // Arrays of one shape take the place of the axis
+    let parts = results.iter()
+        .map(|r| {
+            let r = r.bind(py);
+            match is_number(&r.clone().unbind()) {
+                true => creation::numbers_to_array(&[r.clone()], vec![], None),
+                false => creation::asarray(py, r, None),
+            }
+        })
+        .collect::<PyResult<Vec<_>>>()?;
+    let result_shape = parts[0].inner.shape().to_vec();
+    if parts.iter().any(|p| p.inner.shape() != result_shape) {
+        return Err(pyo3::exceptions::PyValueError::new_err("results must all have the same shape"));
     }
+    let dtype = parts.iter().skip(1)
+        .fold(parts[0].inner.dtype(), |dt, p| promote_dtype(&dt, &p.inner.dtype()));
+    let mut full_shape = vec![out_size];
+    full_shape.extend(&result_shape);
+    let out = RumpyArray::zeros(full_shape.clone(), dtype);
+    let step = out.strides()[0];
+    for (i, part) in parts.iter().enumerate() {
+        out.view_with(i as isize * step, result_shape.clone(), out.strides()[1..].to_vec()).assign(&part.inner);
+    }
+    let mut final_shape = out_shape.clone();
+    final_shape.extend(&result_shape);
+    let out = out.reshape(final_shape).ok_or_else(||
+        pyo3::exceptions::PyValueError::new_err("reshape failed")
+    )?;
+    let outer = out_shape.len();
+    let axes: Vec<usize> = (0..axis)
+        .chain(outer..outer + result_shape.len())
+        .chain(axis..outer)
+        .collect();
+    Ok(PyRumpyArray::new(out.transpose_axes(&axes)))
 }
 
 /// Apply a function repeatedly over multiple axes.
@@ -196,48 +171,19 @@ pub fn apply_over_axes(
 
         let result = func.call1(&args)?;
 
-        // Result should have same ndim (dims kept)
-        if let Ok(arr_result) = result.extract::<PyRef<'_, PyRumpyArray>>() {
-            let result_ndim = arr_result.inner.ndim();
-            if result_ndim != ndim {
-                // Try to expand dims to match
-                let mut new_shape = arr_result.inner.shape().to_vec();
-                while new_shape.len() < ndim {
-                    // Insert 1 at the reduced axis position
-                    if axis < new_shape.len() {
-                        new_shape.insert(axis, 1);
-                    } else {
-                        new_shape.push(1);
-                    }
-                }
-                let reshaped = arr_result.inner.reshape(new_shape).ok_or_else(||
-                    pyo3::exceptions::PyValueError::new_err("reshape failed")
-                )?;
-                current = PyRumpyArray::new(reshaped);
-            } else {
-                current = PyRumpyArray::new(arr_result.inner.clone());
-            }
+        // The result keeps the reduced axis, or gets it back with length 1
+        let res = creation::asarray(py, &result, None)?.inner;
+        current = if res.ndim() == ndim {
+            PyRumpyArray::new(res)
+        } else if res.ndim() + 1 == ndim {
+            PyRumpyArray::new(res.expand_dims(axis).ok_or_else(||
+                pyo3::exceptions::PyValueError::new_err("reshape failed")
+            )?)
         } else {
-            // Try to convert from numpy via asarray
-            current = creation::asarray(py, &result, None)?;
-
-            // Ensure dims are kept
-            let result_ndim = current.inner.ndim();
-            if result_ndim != ndim {
-                let mut new_shape = current.inner.shape().to_vec();
-                while new_shape.len() < ndim {
-                    if axis < new_shape.len() {
-                        new_shape.insert(axis, 1);
-                    } else {
-                        new_shape.push(1);
-                    }
-                }
-                let reshaped = current.inner.reshape(new_shape).ok_or_else(||
-                    pyo3::exceptions::PyValueError::new_err("reshape failed")
-                )?;
-                current = PyRumpyArray::new(reshaped);
-            }
-        }
+            return Err(pyo3::exceptions::PyValueError::new_err(
+                "function is not returning an array of the correct shape"
+            ));
+        };
     }
 
     Ok(current)
@@ -372,8 +318,7 @@ impl PyVectorize {
                     scalar_idx += 1;
                 } else if arr_idx < broadcasted.len() {
                     // Get element from broadcasted array
-                    let val = broadcasted[arr_idx].get_element(&indices);
-                    call_args.push(val.into_pyobject(py)?.unbind().into_any());
+                    call_args.push(element_object(py, &broadcasted[arr_idx], &indices)?);
                     arr_idx += 1;
                 }
             }
@@ -384,27 +329,19 @@ impl PyVectorize {
         }
 
         // Build output array
-        let dtype = if let Some(ref otypes) = self.otypes {
-            otypes[0].clone()
-        } else {
-            // Infer from first result
-            DType::float64()
-        };
-
-        let mut out_data: Vec<f64> = Vec::with_capacity(size);
-        for r in results {
-            out_data.push(r.bind(py).extract::<f64>()?);
-        }
-
-        let out = RumpyArray::from_vec(out_data, dtype);
-        let out = out.reshape(broadcast_shape).ok_or_else(||
-            pyo3::exceptions::PyValueError::new_err("reshape failed")
-        )?;
-        Ok(PyRumpyArray::new(out).into_pyobject(py)?.unbind().into_any())
+        self.output(py, &results, broadcast_shape)
     }
 }
 
 impl PyVectorize {
+    /// Array of the results, of the requested type or one that holds them all.
+    fn output(&self, py: Python<'_>, results: &[PyObject], shape: Vec<usize>) -> PyResult<PyObject> {
+        let dtype = self.otypes.as_ref().and_then(|otypes| otypes.first().cloned());
+        let items: Vec<Bound<'_, PyAny>> = results.iter().map(|r| r.bind(py).clone()).collect();
+        let out = creation::numbers_to_array(&items, shape, dtype)?;
+        Ok(out.into_pyobject(py)?.unbind().into_any())
+    }
+
     fn call_with_signature(
         &self,
         py: Python<'_>,
@@ -423,98 +360,79 @@ impl PyVectorize {
         let input_sig = parts[0].trim();
         let output_sig = parts[1].trim();
 
-        // Parse input dimensions
-        let input_dims: Vec<&str> = input_sig
-            .split(',')
-            .map(|s| s.trim().trim_matches(|c| c == '(' || c == ')'))
-            .collect();
-
-        // For now, support simple case: "(n),(n)->()" meaning inner product
-        if output_sig == "()" {
-            // Output is scalar per outer iteration
-            let arrays: Vec<PyRumpyArray> = args
-                .iter()
-                .map(|arg| {
-                    if let Ok(arr) = arg.extract::<PyRef<'_, PyRumpyArray>>() {
-                        Ok(PyRumpyArray::new(arr.inner.clone()))
-                    } else {
-                        creation::asarray(py, &arg, None)
-                    }
-                })
-                .collect::<PyResult<Vec<_>>>()?;
-
-            if arrays.is_empty() {
-                return self.pyfunc.bind(py).call(&args, kwargs).map(|r| r.unbind());
-            }
-
-            // Assume core dimensions are the last dimension
-            let core_len = if !input_dims.is_empty() && !input_dims[0].is_empty() {
-                arrays[0].inner.shape().last().copied().unwrap_or(1)
-            } else {
-                1
-            };
-
-            // Output shape is shape without core dimensions
-            let out_shape: Vec<usize> = if arrays[0].inner.ndim() > 1 {
-                arrays[0].inner.shape()[..arrays[0].inner.ndim() - 1].to_vec()
-            } else {
-                vec![]
-            };
-
-            let out_size: usize = out_shape.iter().product::<usize>().max(1);
-
-            let mut results: Vec<f64> = Vec::with_capacity(out_size);
+        if output_sig != "()" {
+            return Err(pyo3::exceptions::PyNotImplementedError::new_err(
+                "Only scalar output signatures are supported"
+            ));
+        }
 
-            for i in 0..out_size {
-                // Extract 1D slices for each array along last axis (core dimension)
-                let mut call_args: Vec<Bound<'_, PyAny>> = Vec::with_capacity(arrays.len());
+        // Number of core dimensions of each input: "(m,n),(n),()" gives [2, 1, 0]
+        let core_dims: Vec<usize> = input_sig
+            .split(')')
+            .map(|part| part.trim_start_matches(|c: char| c == ',' || c == '(' || c.is_whitespace()))
+            .take(input_sig.matches(')').count())
+            .map(|part| part.split(',').filter(|name| !name.trim().is_empty()).count())
+            .collect();
+        if core_dims.len() != args.len() {
+            return Err(pyo3::exceptions::PyTypeError::new_err(format!(
+                "wrong number of positional arguments: expected {}, got {}", core_dims.len(), args.len()
+            )));
+        }
 
-                // Indices for all dims except last (the core dimension)
-                let other_indices = if out_shape.is_empty() {
-                    vec![]
-                } else {
-                    flat_to_indices(i, &out_shape)
-                };
-
-                for arr in &arrays {
-                    let last_axis = arr.inner.ndim().saturating_sub(1);
-                    let slice_data = if other_indices.is_empty() {
-                        // 1D array - just convert to vec
-                        arr.inner.to_vec()
-                    } else {
-                        arr.inner.get_slice_along_axis(last_axis, &other_indices)
-                    };
-                    let slice_arr = RumpyArray::from_vec(slice_data, arr.inner.dtype());
-                    call_args.push(PyRumpyArray::new(slice_arr).into_pyobject(py)?.into_any());
-                }
+        let arrays: Vec<PyRumpyArray> = args
+            .iter()
+            .map(|arg| match creation::asarray(py, &arg, None) {
+                Ok(arr) => Ok(arr),
+                Err(_) => creation::numbers_to_array(&[arg.clone()], vec![], None),
+            })
+            .collect::<PyResult<Vec<_>>>()?;
+
+        // Loop dimensions come first and broadcast
+        let mut loop_shapes = Vec::with_capacity(arrays.len());
+        for (arr, &core) in arrays.iter().zip(&core_dims) {
+            let outer = arr.inner.ndim().checked_sub(core).ok_or_else(|| {
+                pyo3::exceptions::PyValueError::new_err(format!(
+                    "{}-dimensional argument does not have enough dimensions for all core dimensions", arr.inner.ndim()
+                ))
+            })?;
+            loop_shapes.push(arr.inner.shape()[..outer].to_vec());
+        }
+        let out_shape = broadcast_shapes(&loop_shapes)?;
+        let broadcasted = arrays.iter().zip(&core_dims)
+            .map(|(arr, &core)| {
+                let mut shape = out_shape.clone();
+                shape.extend(&arr.inner.shape()[arr.inner.ndim() - core..]);
+                arr.inner.broadcast_to(&shape)
+            })
+            .collect::<Option<Vec<_>>>()
+            .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("broadcast failed"))?;
 
-                let call_tuple = PyTuple::new(py, call_args)?;
-                let result = self.pyfunc.bind(py).call(&call_tuple, kwargs)?;
-                results.push(result.extract::<f64>()?);
+        let size: usize = out_shape.iter().product();
+        let outer = out_shape.len();
+        let mut results: Vec<PyObject> = Vec::with_capacity(size);
+        for i in 0..size {
+            let indices = flat_to_indices(i, &out_shape);
+            let mut call_args: Vec<Bound<'_, PyAny>> = Vec::with_capacity(arrays.len());
+            for arr in &broadcasted {
+                let core = arr.view_with(
+                    arr.byte_offset_for(&indices),
+                    arr.shape()[outer..].to_vec(),
+                    arr.strides()[outer..].to_vec(),
+                );
+                call_args.push(match arr.ndim() == outer {
+                    true => element_object(py, arr, &indices)?.into_bound(py),
+                    false => PyRumpyArray::new(core.copy()).into_pyobject(py)?.into_any(),
+                });
             }
+            let call_tuple = PyTuple::new(py, call_args)?;
+            results.push(self.pyfunc.bind(py).call(&call_tuple, kwargs)?.unbind());
+        }
 
-            let dtype = if let Some(ref otypes) = self.otypes {
-                otypes[0].clone()
-            } else {
-                DType::float64()
-            };
-
-            if !out_shape.is_empty() {
-                let out = RumpyArray::from_vec(results, dtype);
-                let out = out.reshape(out_shape).ok_or_else(||
-                    pyo3::exceptions::PyValueError::new_err("reshape failed")
-                )?;
-                Ok(PyRumpyArray::new(out).into_pyobject(py)?.unbind().into_any())
-            } else {
-                // Return scalar
-                let scalar = results[0];
-                Ok(scalar.into_pyobject(py)?.unbind().into_any())
-            }
-        } else {
-            Err(pyo3::exceptions::PyNotImplementedError::new_err(
-                "Only scalar output signatures are supported"
-            ))
+        if out_shape.is_empty() {
+            // Return scalar
+            return Ok(results[0].bind(py).extract::<f64>()?.into_pyobject(py)?.unbind().into_any());
         }
+        self.output(py, &results, out_shape)
     }
 }
 
@@ -607,8 +525,7 @@ impl PyFrompyfunc {
 
             for (j, maybe_arr) in broadcasted.iter().enumerate() {
                 if let Some(arr) = maybe_arr {
-                    let val = arr.get_element(&indices);
-                    call_args.push(val.into_pyobject(py)?.unbind().into_any());
+                    call_args.push(element_object(py, arr, &indices)?);
                 } else {
                     // Use original scalar
                     call_args.push(args.get_item(j)?.unbind());
@@ -623,39 +540,30 @@ impl PyFrompyfunc {
             } else {
                 // Multiple outputs - unpack tuple
                 let result_tuple = result.downcast::<PyTuple>()?;
+                if result_tuple.len() != self.nout {
+                    return Err(pyo3::exceptions::PyValueError::new_err(format!(
+                        "function must return {} values, got {}", self.nout, result_tuple.len()
+                    )));
+                }
                 for (k, item) in result_tuple.iter().enumerate() {
-                    if k < self.nout {
-                        all_results[k].push(item.unbind());
-                    }
+                    all_results[k].push(item.unbind());
                 }
             }
         }
 
         // Build output arrays (object dtype like numpy)
-        if self.nout == 1 {
-            let out_list = PyList::new(py, all_results[0].iter().map(|r| r.bind(py)))?;
-            let numpy = py.import("numpy")?;
-            let np_arr = numpy.call_method1("array", (out_list,))?;
-            if broadcast_shape.len() > 1 {
-                let np_reshaped = np_arr.call_method1("reshape", (broadcast_shape.clone(),))?;
-                Ok(np_reshaped.unbind())
-            } else {
-                Ok(np_arr.unbind())
+        let numpy = py.import("numpy")?;
+        let mut out_arrays: Vec<Bound<'_, PyAny>> = Vec::with_capacity(self.nout);
+        for results in all_results {
+            let flat = numpy.call_method1("empty", (size, "O"))?;
+            for (i, r) in results.into_iter().enumerate() {
+                flat.set_item(i, r)?;
             }
+            out_arrays.push(flat.call_method1("reshape", (broadcast_shape.clone(),))?);
+        }
+        if self.nout == 1 {
+            Ok(out_arrays.remove(0).unbind())
         } else {
-            // Multiple outputs - return tuple of arrays
-            let mut out_arrays: Vec<Bound<'_, PyAny>> = Vec::with_capacity(self.nout);
-            for results in all_results {
-                let out_list = PyList::new(py, results.iter().map(|r| r.bind(py)))?;
-                let numpy = py.import("numpy")?;
-                let np_arr = numpy.call_method1("array", (out_list,))?;
-                if broadcast_shape.len() > 1 {
-                    let np_reshaped = np_arr.call_method1("reshape", (broadcast_shape.clone(),))?;
-                    out_arrays.push(np_reshaped);
-                } else {
-                    out_arrays.push(np_arr);
-                }
-            }
             Ok(PyTuple::new(py, out_arrays)?.into_any().unbind())
         }
     }
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 50a1db4..0892725 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -21,7 +21,7 @@ use std::sync::Arc;
 
 use crate::array::{broadcast_shapes, promote_dtype, DType, RumpyArray};
 use crate::array::dtype::DTypeKind;
-use super::{PyRumpyArray, shape::to_rumpy_array};
+use super::{PyRumpyArray, pyarray::scalar_array, shape::to_rumpy_array};
 
 
 /// Resolve a potentially negative axis to a positive index.
@@ -576,29 +576,14 @@ pub fn piecewise(
         ))?;
 
     let mut assigned = vec![false; size];
+    let itemsize = dtype.itemsize();
 
-    // Helper macro for writing typed values with dtype dispatch
-    macro_rules! write_val {
-        ($idx:expr, $val:expr) => {{
-            match dtype.kind() {
-                DTypeKind::Float32 => unsafe { *(dst_ptr as *mut f32).add($idx) = $val as f32; },
-                DTypeKind::Float64 => unsafe { *(dst_ptr as *mut f64).add($idx) = $val as f64; },
-                DTypeKind::Int32 => unsafe { *(dst_ptr as *mut i32).add($idx) = $val as i32; },
-                DTypeKind::Int64 => unsafe { *(dst_ptr as *mut i64).add($idx) = $val as i64; },
-                DTypeKind::Uint32 => unsafe { *(dst_ptr as *mut u32).add($idx) = $val as u32; },
-                DTypeKind::Uint64 => unsafe { *(dst_ptr as *mut u64).add($idx) = $val as u64; },
-                DTypeKind::Int8 => unsafe { *(dst_ptr as *mut i8).add($idx) = $val as i8; },
-                DTypeKind::Int16 => unsafe { *(dst_ptr as *mut i16).add($idx) = $val as i16; },
-                DTypeKind::Uint8 => unsafe { *(dst_ptr as *mut u8).add($idx) = $val as u8; },
-                DTypeKind::Uint16 => unsafe { *(dst_ptr as *mut u16).add($idx) = $val as u16; },
-                DTypeKind::Bool => unsafe { *(dst_ptr as *mut u8).add($idx) = $val as u8; },
-                _ => unsafe { dtype.ops().write_f64(dst_ptr, $idx, $val); }
-            }
-        }};
-    }
+    // Helper to store element 0 of an array of x's dtype
+    let write_val = |idx: usize, val: &RumpyArray| unsafe {
+        std::ptr::copy_nonoverlapping(val.data_ptr(), dst_ptr.add(idx * itemsize), itemsize);
+    };
 
     // Helper to call a Python function on one element and store its result
-    let itemsize = dtype.itemsize();
     let call_func = |func: &Bound<'_, pyo3::PyAny>, i: usize| -> PyResult<()> {
         let mut x_arr = RumpyArray::zeros(vec![1], dtype.clone());
         let x_ptr = Arc::get_mut(&mut x_arr.buffer).expect("unique").as_mut_ptr();
@@ -609,10 +594,9 @@ pub fn piecewise(
             if arr.inner.size() == 0 {
                 return Err(pyo3::exceptions::PyValueError::new_err("function returned an empty array"));
             }
-            let converted = arr.inner.astype(dtype.clone());
-            unsafe { std::ptr::copy_nonoverlapping(converted.data_ptr(), dst_ptr.add(i * itemsize), itemsize); }
+            write_val(i, &arr.inner.astype(dtype.clone()));
         } else {
-            write_val!(i, result_py.extract::<f64>()?);
+            write_val(i, &scalar_array(&result_py, dtype.clone())?);
         }
         Ok(())
     };
@@ -620,8 +604,8 @@ pub fn piecewise(
     // Process each condition/function pair
     for cond_idx in 0..condlist.len() {
         let func_item = funclist.get_item(cond_idx)?;
-        let constant_val: Option<f64> = if !func_item.is_callable() {
-            Some(func_item.extract::<f64>()?)
+        let constant_val = if !func_item.is_callable() {
+            Some(scalar_array(&func_item, dtype.clone())?)
         } else {
             None
         };
@@ -631,8 +615,8 @@ pub fn piecewise(
 
             let cond_val = unsafe { *conds[cond_idx].data_ptr().add(i) };
             if cond_val != 0 {
-                match constant_val {
-                    Some(val) => write_val!(i, val),
+                match &constant_val {
+                    Some(val) => write_val(i, val),
                     None => call_func(&func_item, i)?,
                 }
                 assigned[i] = true;
@@ -643,16 +627,16 @@ pub fn piecewise(
     // Handle default if present
     if has_default {
         let default_item = funclist.get_item(condlist.len())?;
-        let constant_val: Option<f64> = if !default_item.is_callable() {
-            Some(default_item.extract::<f64>()?)
+        let constant_val = if !default_item.is_callable() {
+            Some(scalar_array(&default_item, dtype.clone())?)
         } else {
             None
         };
 
         for i in 0..size {
             if !assigned[i] {
-                match constant_val {
-                    Some(val) => write_val!(i, val),
+                match &constant_val {
+                    Some(val) => write_val(i, val),
                     None => call_func(&default_item, i)?,
                 }
             }
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index ca0c9ef..11e909d 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -1092,7 +1092,7 @@ fn fill_view(view: &RumpyArray, value: &Bound<'_, PyAny>) -> PyResult<()> {
 const EXACT: u64 = 1 << 53;
 
 /// One element as a Python number: a float, unless a float cannot hold the value.
-fn element_object(py: Python<'_>, arr: &RumpyArray, indices: &[usize]) -> PyResult<PyObject> {
+pub(super) fn element_object(py: Python<'_>, arr: &RumpyArray, indices: &[usize]) -> PyResult<PyObject> {
     let offset = arr.byte_offset_for(indices);
     let dtype = arr.dtype();
     match dtype.kind() {
-- 
2.43.0


From 6a8909ba3aa5dbab8554a9feef6e51a9db5f3738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:01 +0000
Subject: [PATCH 64/72] fix: iterators, lists and int() give exact element
 values; a list of bools indexes as a mask

---
 src/ops/mod.rs                    | 22 ++++++++--------
 src/python/indexing.rs            | 22 +++++-----------
 src/python/pyarray/dunder_item.rs | 10 ++++++-
 src/python/pyarray/dunder_ops.rs  |  8 +++---
 src/python/pyarray/mod.rs         | 43 +++++++++++++++++++------------
 5 files changed, 57 insertions(+), 48 deletions(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index dd54dc7..f5de769 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -50,7 +50,7 @@ pub use array_methods::lexsort;
 pub use special::{sinc, i0, spacing, modf, frexp, ldexp, heaviside, gcd, lcm};
 
 use crate::array::{broadcast_shapes, increment_indices, promote_dtype, DType, RumpyArray};
-use crate::array::dtype::UnaryOp;
+use crate::array::dtype::{DTypeKind, UnaryOp};
 use std::sync::Arc;
 
 // Re-export BinaryOp from dtype module
@@ -284,17 +284,17 @@ impl RumpyArray {
             use pyo3::IntoPyObject;
             if depth == arr.ndim() {
                 // Base case: return scalar of appropriate type
-                let offset = arr.byte_offset_for(indices);
-                let ptr = arr.data_ptr();
+                let ptr = unsafe { arr.data_ptr().offset(arr.byte_offset_for(indices)) };
                 let dtype = arr.dtype();
-                let ops = dtype.ops();
-                if use_int {
-                    let val = unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0);
-                    return Ok(val.into_pyobject(py)?.into_any().unbind());
-                } else {
-                    let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-                    return Ok(val.into_pyobject(py)?.into_any().unbind());
-                }
+                return match dtype.kind() {
+                    DTypeKind::Bool => Ok(pyo3::types::PyBool::new(py, unsafe { *ptr } != 0).to_owned().into_any().unbind()),
+                    DTypeKind::Uint64 => Ok(unsafe { *(ptr as *const u64) }.into_pyobject(py)?.into_any().unbind()),
+                    _ if use_int => {
+                        let val = unsafe { dtype.ops().read_i64(ptr, 0) }.unwrap_or(0);
+                        Ok(val.into_pyobject(py)?.into_any().unbind())
+                    }
+                    _ => crate::python::pyarray::element_object(py, arr, indices),
+                };
             }
 
             // Build list for this dimension
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index 3bb3c22..2ad0c83 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -912,23 +912,14 @@ impl NdEnumerate {
         slf
     }
 
-    fn __next__<'py>(mut slf: PyRefMut<'py, Self>) -> Option<(pyo3::PyObject, f64)> {
+    fn __next__<'py>(mut slf: PyRefMut<'py, Self>) -> PyResult<Option<(pyo3::PyObject, pyo3::PyObject)>> {
         if slf.flat_idx >= slf.size {
-            return None;
+            return Ok(None);
         }
 
         let indices = slf.indices.clone();
-        let ptr = slf.arr.data_ptr();
-        let dtype = slf.arr.dtype();
-        let ops = dtype.ops();
-
-        // Calculate offset from indices
-        let strides = slf.arr.strides();
-        let offset: isize = slf.indices.iter().zip(strides.iter())
-            .map(|(&i, &s)| (i as isize) * s)
-            .sum();
-
-        let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
+        let py = slf.py();
+        let val = super::pyarray::element_object(py, &slf.arr, &indices)?;
 
         // Increment indices (clone shape to avoid borrow conflict)
         slf.flat_idx += 1;
@@ -936,10 +927,9 @@ impl NdEnumerate {
         crate::array::increment_indices(&mut slf.indices, &shape);
 
         // Convert indices to Python tuple
-        let py = slf.py();
-        let tuple = pyo3::types::PyTuple::new(py, indices).ok()?.into();
+        let tuple = pyo3::types::PyTuple::new(py, indices)?.into();
 
-        Some((tuple, val))
+        Ok(Some((tuple, val)))
     }
 }
 
diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index b0a3e91..0375398 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -1,7 +1,7 @@
 //! __getitem__ and __setitem__ implementations for PyRumpyArray.
 
 use pyo3::prelude::*;
-use pyo3::types::{PyEllipsis, PyList, PySlice, PyTuple};
+use pyo3::types::{PyBool, PyEllipsis, PyList, PySlice, PyTuple};
 
 use super::{
     element_object, expand_ellipsis, extract_slice_indices, fill_view, first_axis_len, normalize_index,
@@ -48,6 +48,14 @@ impl PyRumpyArray {
             }
         }
 
+        // A list of bools is a mask
+        if let Ok(list) = key.downcast::<PyList>() {
+            if !list.is_empty() && list.iter().all(|x| x.is_instance_of::<PyBool>()) {
+                let mask = super::super::creation::from_list(list, None)?;
+                return self.__getitem__(py, &mask.into_pyobject(py)?.into_any());
+            }
+        }
+
         // Handle Python list indexing (convert to array for fancy indexing)
         if let Ok(list) = key.downcast::<PyList>() {
             let indices: Vec<i64> = list
diff --git a/src/python/pyarray/dunder_ops.rs b/src/python/pyarray/dunder_ops.rs
index ba67c60..2b07f69 100644
--- a/src/python/pyarray/dunder_ops.rs
+++ b/src/python/pyarray/dunder_ops.rs
@@ -4,7 +4,7 @@ use pyo3::prelude::*;
 
 use super::{
     binary_op_dispatch, binary_op_dispatch_with_elision, bitwise_binary_op_dispatch,
-    comparison_op_dispatch, rbitwise_binary_op_dispatch, rbinary_op_dispatch, PyRumpyArray,
+    comparison_op_dispatch, element_object, rbitwise_binary_op_dispatch, rbinary_op_dispatch, PyRumpyArray,
 };
 use crate::ops::bitwise::{bitwise_and, bitwise_or, bitwise_xor, left_shift, right_shift};
 use crate::ops::matmul::matmul;
@@ -123,13 +123,15 @@ impl PyRumpyArray {
         Ok(self.inner.get_element(&vec![0; self.inner.ndim()]))
     }
 
-    fn __int__(&self) -> PyResult<i64> {
+    fn __int__(&self, py: Python<'_>) -> PyResult<PyObject> {
         if self.inner.size() != 1 {
             return Err(pyo3::exceptions::PyTypeError::new_err(
                 "only size-1 arrays can be converted to Python scalars",
             ));
         }
-        Ok(self.inner.get_element(&vec![0; self.inner.ndim()]) as i64)
+        let value = element_object(py, &self.inner, &vec![0; self.inner.ndim()])?;
+        let int = py.get_type::<pyo3::types::PyInt>().call1((value,))?;
+        Ok(int.unbind())
     }
 
     // Comparison operations
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 11e909d..51077d6 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -11,7 +11,7 @@ mod methods_reductions;
 
 use pyo3::prelude::*;
 use pyo3::types::{
-    PyComplex, PyComplexMethods, PyDict, PyEllipsis, PyInt, PyList, PySlice, PyString, PyTuple,
+    PyBytes, PyComplex, PyComplexMethods, PyDict, PyEllipsis, PyInt, PyList, PySlice, PyString, PyTuple,
 };
 
 use crate::array::{promote_dtype, DType, DTypeKind, RumpyArray};
@@ -1091,27 +1091,36 @@ fn fill_view(view: &RumpyArray, value: &Bound<'_, PyAny>) -> PyResult<()> {
 /// Integers up to this magnitude are exact as f64.
 const EXACT: u64 = 1 << 53;
 
-/// One element as a Python number: a float, unless a float cannot hold the value.
-pub(super) fn element_object(py: Python<'_>, arr: &RumpyArray, indices: &[usize]) -> PyResult<PyObject> {
-    let offset = arr.byte_offset_for(indices);
-    let dtype = arr.dtype();
-    match dtype.kind() {
+/// One element as a Python object: a float, unless a float cannot hold the value.
+pub(crate) fn element_object(py: Python<'_>, arr: &RumpyArray, indices: &[usize]) -> PyResult<PyObject> {
+    let ptr = unsafe { arr.data_ptr().offset(arr.byte_offset_for(indices)) };
+    match arr.dtype().kind() {
         DTypeKind::Complex64 | DTypeKind::Complex128 => {
             let (re, im) = arr.get_complex_element(indices);
             return Ok(PyComplex::from_doubles(py, re, im).into_any().unbind());
         }
-        DTypeKind::Int64 => {
-            let v = unsafe { *(arr.data_ptr().offset(offset) as *const i64) };
+        DTypeKind::Int64 | DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => {
+            let v = unsafe { *(ptr as *const i64) };
             if v.unsigned_abs() > EXACT {
                 return Ok(v.into_pyobject(py)?.into_any().unbind());
             }
         }
         DTypeKind::Uint64 => {
-            let v = unsafe { *(arr.data_ptr().offset(offset) as *const u64) };
+            let v = unsafe { *(ptr as *const u64) };
             if v > EXACT {
                 return Ok(v.into_pyobject(py)?.into_any().unbind());
             }
         }
+        DTypeKind::Str(max_chars) => {
+            let chars = unsafe { std::slice::from_raw_parts(ptr as *const u32, max_chars) };
+            let text: String = chars.iter().filter_map(|&c| char::from_u32(c)).collect();
+            return Ok(text.trim_end_matches('\0').into_pyobject(py)?.into_any().unbind());
+        }
+        DTypeKind::Bytes(max_bytes) => {
+            let bytes = unsafe { std::slice::from_raw_parts(ptr, max_bytes) };
+            let len = bytes.iter().rposition(|&b| b != 0).map_or(0, |i| i + 1);
+            return Ok(PyBytes::new(py, &bytes[..len]).into_any().unbind());
+        }
         _ => {}
     }
     Ok(arr.get_element(indices).into_pyobject(py)?.into_any().unbind())
@@ -1407,34 +1416,34 @@ impl PyFlatIter {
         slf
     }
 
-    fn __next__(&mut self) -> Option<f64> {
+    fn __next__(&mut self, py: Python<'_>) -> PyResult<Option<PyObject>> {
         let size = self.inner.size();
         if self.index >= size {
-            return None;
+            return Ok(None);
         }
 
         // Get element at current flat index
-        let val = self.get_flat_element(self.index);
+        let val = self.get_flat_element(py, self.index)?;
         self.index += 1;
-        Some(val)
+        Ok(Some(val))
     }
 
     fn __len__(&self) -> usize {
         self.inner.size()
     }
 
-    fn __getitem__(&self, index: isize) -> PyResult<f64> {
+    fn __getitem__(&self, py: Python<'_>, index: isize) -> PyResult<PyObject> {
         let size = self.inner.size() as isize;
         let idx = if index < 0 { size + index } else { index };
         if idx < 0 || idx >= size {
             return Err(pyo3::exceptions::PyIndexError::new_err("index out of bounds"));
         }
-        Ok(self.get_flat_element(idx as usize))
+        self.get_flat_element(py, idx as usize)
     }
 }
 
 impl PyFlatIter {
-    fn get_flat_element(&self, flat_idx: usize) -> f64 {
+    fn get_flat_element(&self, py: Python<'_>, flat_idx: usize) -> PyResult<PyObject> {
         let shape = self.inner.shape();
         let ndim = shape.len();
 
@@ -1446,6 +1455,6 @@ impl PyFlatIter {
             remaining /= shape[i];
         }
 
-        self.inner.get_element(&indices)
+        element_object(py, &self.inner, &indices)
     }
 }
-- 
2.43.0


From 5227306f367311f26c27843bdda78ad4cf87e12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:37 +0000
Subject: [PATCH 65/72] fix: diagonal of an array with more than two axes stays
 inside its memory

---
 src/ops/mod.rs            | 8 ++++++--
 src/python/pyarray/mod.rs | 7 +++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index f5de769..7ef77c2 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -169,8 +169,12 @@ impl RumpyArray {
         // Diagonal stride = row_stride + col_stride (step diagonally)
         let diag_stride = strides[0] + strides[1];
 
-        // Return a 1D view with the diagonal stride
-        self.view_with(0, vec![n], vec![diag_stride])
+        // The diagonal is the last axis of the view, after the remaining axes
+        let mut view_shape = shape[2..].to_vec();
+        let mut view_strides = strides[2..].to_vec();
+        view_shape.push(n);
+        view_strides.push(diag_stride);
+        self.view_with(0, view_shape, view_strides)
     }
 
     /// Return sum of diagonal elements (trace).
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 51077d6..dd33896 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -369,8 +369,11 @@ impl PyRumpyArray {
     }
 
     /// Sum of diagonal elements.
-    fn trace(&self) -> f64 {
-        self.inner.trace()
+    fn trace(&self) -> PyResult<f64> {
+        if self.inner.ndim() != 2 {
+            return Err(pyo3::exceptions::PyValueError::new_err("trace requires 2D array"));
+        }
+        Ok(self.inner.trace())
     }
 
     /// Swap two axes.
-- 
2.43.0


From 740a23533875c3bc0c806e4f1ffc237b792a5c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:45 +0000
Subject: [PATCH 66/72] fix: importing a misaligned foreign array copies its
 bytes instead of aborting

---
 src/python/creation.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index ab37dea..ade025f 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -415,8 +415,6 @@ fn from_array_interface(
         crate::array::compute_c_strides(&shape, itemsize)
     });
 
-    let dtype = arr.dtype();
-    // Use get_element pattern - iterate and copy
     let buffer = arr.buffer_mut();
     let result_buffer = std::sync::Arc::get_mut(buffer).expect("buffer must be unique");
     let dst_ptr = result_buffer.as_mut_ptr();
@@ -430,8 +428,10 @@ fn from_array_interface(
             .map(|(&idx, &stride)| idx as isize * stride)
             .sum();
 
-        // Copy element from source to destination
-        unsafe { dtype.ops().copy_element(src_ptr, src_offset, dst_ptr, i); }
+        // Copy the bytes: the source need not be aligned
+        unsafe {
+            std::ptr::copy_nonoverlapping(src_ptr.offset(src_offset), dst_ptr.add(i * itemsize), itemsize);
+        }
 
         increment_indices(&mut indices, &shape);
     }
-- 
2.43.0


From e7e82857ab90d8c6909348b0c55370f4dc76c7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:05 +0000
Subject: [PATCH 67/72] fix: matmul, dot, inner and tensordot follow NumPy's
 shapes for vectors and more than two axes; svd, pinv and lstsq of
 rank-deficient matrices

---
 src/ops/dot.rs    |   7 +-
 src/ops/inner.rs  |   4 +
 src/ops/linalg.rs | 250 ++++++++++++++++++++++++----------------------
 src/ops/matmul.rs |  69 ++++---------
 4 files changed, 164 insertions(+), 166 deletions(-)

diff --git a/src/ops/dot.rs b/src/ops/dot.rs
index fa8cf37..8a6873d 100644
--- a/src/ops/dot.rs
+++ b/src/ops/dot.rs
@@ -7,6 +7,7 @@
 
 use crate::array::RumpyArray;
 use crate::ops::inner::inner;
+use crate::ops::linalg::tensordot;
 use crate::ops::matmul::matmul;
 
 /// Dot product with numpy semantics.
@@ -32,8 +33,12 @@ pub fn dot(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
             let scalar = b.get_element(&[]);
             Some(a.scalar_op(scalar, crate::ops::BinaryOp::Mul))
         }
+        (_, m) if m > 2 => {
+            // Sum over the last axis of a and the second-to-last of b
+            tensordot(a, b, (vec![a.ndim() - 1], vec![m - 2]))
+        }
         _ => {
-            // 2D cases (and higher): use matmul
+            // b is a matrix or a vector: use matmul
             matmul(a, b)
         }
     }
diff --git a/src/ops/inner.rs b/src/ops/inner.rs
index 7e6a2cb..97b9c9c 100644
--- a/src/ops/inner.rs
+++ b/src/ops/inner.rs
@@ -56,6 +56,10 @@ impl GufuncKernel for InnerKernel {
 /// let c = rp.inner(a, b);    // (3,) - 3 inner products
 /// ```
 pub fn inner(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
+    // Every vector of a with every vector of b
+    if a.ndim() > 1 && b.ndim() > 1 {
+        return crate::ops::linalg::tensordot(a, b, (vec![a.ndim() - 1], vec![b.ndim() - 1]));
+    }
     let kernel = InnerKernel::new();
     let mut results = gufunc_call(&kernel, &[a, b])?;
     results.pop()
diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index 93b3b3e..61e576c 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -309,6 +309,108 @@ pub fn qr(a: &RumpyArray) -> Option<(RumpyArray, RumpyArray)> {
     Some((q, r))
 }
 
+/// Thin SVD (U, S, V) of a matrix.
+///
+/// faer's divide and conquer can lose accuracy on rank-deficient matrices, so
+/// its factors are only used when they reproduce the matrix.
+fn thin_svd(a: &RumpyArray) -> (faer::Mat<f64>, Vec<f64>, faer::Mat<f64>) {
+    let fa = copy_to_faer_mat(a);
+    let decomp = fa.thin_svd();
+    let s: Vec<f64> = (0..decomp.s_diagonal().nrows()).map(|i| decomp.s_diagonal()[i]).collect();
+    let (u, v) = (decomp.u().to_owned(), decomp.v().to_owned());
+    let us = faer::Mat::<f64>::from_fn(u.nrows(), s.len(), |i, j| u[(i, j)] * s[j]);
+    let error = (us * v.transpose() - &fa).norm_max();
+    let size = fa.nrows().max(fa.ncols()) as f64;
+    if error > 1e-13 * size * s.first().copied().unwrap_or(0.0) {
+        return jacobi_svd(&fa);
+    }
+    (u, s, v)
+}
+
+/// Thin SVD by one-sided Jacobi rotations: slower than divide and conquer, and
+/// accurate for every matrix.
+fn jacobi_svd(a: &faer::Mat<f64>) -> (faer::Mat<f64>, Vec<f64>, faer::Mat<f64>) {
+    if a.nrows() < a.ncols() {
+        let (u, s, v) = jacobi_svd(&a.transpose().to_owned());
+        return (v, s, u);
+    }
+    let (m, n) = (a.nrows(), a.ncols());
+    let mut w = a.clone();
+    let mut v = faer::Mat::<f64>::identity(n, n);
+    let rotate = |x: &mut faer::Mat<f64>, p: usize, q: usize, c: f64, s: f64| {
+        for i in 0..x.nrows() {
+            let (xp, xq) = (x[(i, p)], x[(i, q)]);
+            x[(i, p)] = c * xp - s * xq;
+            x[(i, q)] = s * xp + c * xq;
+        }
+    };
+    // Make the columns of w orthogonal to each other
+    for _sweep in 0..60 {
+        let mut rotated = false;
+        for p in 0..n {
+            for q in p + 1..n {
+                let (mut pp, mut qq, mut pq) = (0.0, 0.0, 0.0);
+                for i in 0..m {
+                    pp += w[(i, p)] * w[(i, p)];
+                    qq += w[(i, q)] * w[(i, q)];
+                    pq += w[(i, p)] * w[(i, q)];
+                }
+                if pq.abs() <= f64::EPSILON * (pp * qq).sqrt() {
+                    continue;
+                }
+                rotated = true;
+                let zeta = (qq - pp) / (2.0 * pq);
+                let t = zeta.signum() / (zeta.abs() + (1.0 + zeta * zeta).sqrt());
+                let c = 1.0 / (1.0 + t * t).sqrt();
+                rotate(&mut w, p, q, c, c * t);
+                rotate(&mut v, p, q, c, c * t);
+            }
+        }
+        if !rotated {
+            break;
+        }
+    }
+    // Column lengths are the singular values
+    let lengths: Vec<f64> = (0..n).map(|j| w.col(j).norm_l2()).collect();
+    let mut order: Vec<usize> = (0..n).collect();
+    order.sort_by(|&i, &j| lengths[j].total_cmp(&lengths[i]));
+    let s: Vec<f64> = order.iter().map(|&j| lengths[j]).collect();
+    let v = faer::Mat::<f64>::from_fn(n, n, |i, j| v[(i, order[j])]);
+    let mut u = faer::Mat::<f64>::zeros(m, n);
+    let negligible = f64::EPSILON * m as f64 * s.first().copied().unwrap_or(0.0);
+    let mut next_unit = 0;
+    for j in 0..n {
+        if s[j] > negligible {
+            for i in 0..m {
+                u[(i, j)] = w[(i, order[j])] / s[j];
+            }
+            continue;
+        }
+        // No direction of its own: any unit vector orthogonal to the others
+        while next_unit < m {
+            let mut column = vec![0.0; m];
+            column[next_unit] = 1.0;
+            next_unit += 1;
+            for _ in 0..2 {
+                for k in 0..j {
+                    let dot: f64 = (0..m).map(|i| column[i] * u[(i, k)]).sum();
+                    for i in 0..m {
+                        column[i] -= dot * u[(i, k)];
+                    }
+                }
+            }
+            let norm = column.iter().map(|x| x * x).sum::<f64>().sqrt();
+            if norm > 0.5 / (m as f64).sqrt() {
+                for i in 0..m {
+                    u[(i, j)] = column[i] / norm;
+                }
+                break;
+            }
+        }
+    }
+    (u, s, v)
+}
+
 /// SVD decomposition: A = U @ diag(S) @ V^T.
 ///
 /// Returns thin (U, S, Vt) where U is m×k, S is 1D length k, Vt is k×n.
@@ -317,17 +419,10 @@ pub fn svd(a: &RumpyArray) -> Option<(RumpyArray, RumpyArray, RumpyArray)> {
         return None;
     }
 
-    let decomp = if let Some(fa) = try_as_faer_mat(a) {
-        fa.thin_svd()
-    } else {
-        copy_to_faer_mat(a).thin_svd()
-    };
-
-    let u = faer_to_rumpy(decomp.u());
-    let s = faer_col_to_rumpy(decomp.s_diagonal());
-    let vt = faer_to_rumpy(decomp.v().transpose());
+    let (u, s, v) = thin_svd(a);
+    let s = faer::Col::<f64>::from_fn(s.len(), |i| s[i]);
 
-    Some((u, s, vt))
+    Some((faer_to_rumpy(u.as_ref()), faer_col_to_rumpy(s.as_ref()), faer_to_rumpy(v.transpose())))
 }
 
 /// Eigendecomposition of symmetric matrix: A = V @ diag(w) @ V^T.
@@ -540,15 +635,8 @@ pub fn pinv(a: &RumpyArray, rcond: Option<f64>) -> Option<RumpyArray> {
         return Some(RumpyArray::zeros(vec![n, m], DType::float64()));
     }
 
-    let decomp = if let Some(fa) = try_as_faer_mat(a) {
-        fa.thin_svd()
-    } else {
-        copy_to_faer_mat(a).thin_svd()
-    };
-
-    let u = decomp.u();
-    let s = decomp.s_diagonal();
-    let vt = decomp.v().transpose();
+    let (u, s, v) = thin_svd(a);
+    let vt = v.transpose();
 
     // Cutoff for small singular values
     let rcond = rcond.unwrap_or(f64::EPSILON * (m.max(n) as f64));
@@ -558,7 +646,7 @@ pub fn pinv(a: &RumpyArray, rcond: Option<f64>) -> Option<RumpyArray> {
     // Result is n x m
     let result = RumpyArray::zeros(vec![n, m], DType::float64());
 
-    let k = s.nrows(); // number of singular values
+    let k = s.len(); // number of singular values
 
     for i in 0..n {
         for j in 0..m {
@@ -617,15 +705,7 @@ pub fn lstsq(a: &RumpyArray, b: &RumpyArray, rcond: Option<f64>) -> Option<(Rump
         return Some((x, residuals, 0, s));
     }
 
-    let decomp = if let Some(fa) = try_as_faer_mat(a) {
-        fa.thin_svd()
-    } else {
-        copy_to_faer_mat(a).thin_svd()
-    };
-
-    let u = decomp.u();
-    let s_vals = decomp.s_diagonal();
-    let v = decomp.v();
+    let (u, s_vals, v) = thin_svd(a);
 
     // Determine rank based on rcond
     let rcond = rcond.unwrap_or(-1.0); // -1 means use machine precision
@@ -633,15 +713,15 @@ pub fn lstsq(a: &RumpyArray, b: &RumpyArray, rcond: Option<f64>) -> Option<(Rump
     let cutoff = rcond * s_vals[0].abs();
 
     let mut rank = 0;
-    for i in 0..s_vals.nrows() {
+    for i in 0..s_vals.len() {
         if s_vals[i].abs() > cutoff {
             rank += 1;
         }
     }
 
     // Copy singular values to output
-    let s = RumpyArray::zeros(vec![s_vals.nrows()], DType::float64());
-    for i in 0..s_vals.nrows() {
+    let s = RumpyArray::zeros(vec![s_vals.len()], DType::float64());
+    for i in 0..s_vals.len() {
         unsafe {
             let ptr = s.data_ptr().add(i * 8) as *mut f64;
             *ptr = s_vals[i];
@@ -664,15 +744,15 @@ pub fn lstsq(a: &RumpyArray, b: &RumpyArray, rcond: Option<f64>) -> Option<(Rump
 
         // x = V @ (S^-1 @ (U^T @ b)) for non-zero singular values
         // Step 1: c = U^T @ b
-        let mut c = vec![0.0; s_vals.nrows()];
-        for i in 0..s_vals.nrows() {
+        let mut c = vec![0.0; s_vals.len()];
+        for i in 0..s_vals.len() {
             for j in 0..m {
                 c[i] += u[(j, i)] * b_col[j];
             }
         }
 
         // Step 2: c = S^-1 @ c (only for non-zero singular values)
-        for i in 0..s_vals.nrows() {
+        for i in 0..s_vals.len() {
             if s_vals[i].abs() > cutoff {
                 c[i] /= s_vals[i];
             } else {
@@ -683,7 +763,7 @@ pub fn lstsq(a: &RumpyArray, b: &RumpyArray, rcond: Option<f64>) -> Option<(Rump
         // Step 3: x = V @ c
         for i in 0..n {
             let mut val = 0.0;
-            for j in 0..s_vals.nrows() {
+            for j in 0..s_vals.len() {
                 val += v[(i, j)] * c[j];
             }
             unsafe {
@@ -1264,85 +1344,21 @@ pub fn tensordot(a: &RumpyArray, b: &RumpyArray, axes: (Vec<usize>, Vec<usize>))
         }
     }
 
-    // Simple case: tensordot with axes=1 (matmul-like)
-    if a.ndim() == 2 && b.ndim() == 2 && a_axes == vec![1] && b_axes == vec![0] {
-        // This is just matrix multiplication
-        return crate::ops::matmul::matmul(a, b);
-    }
-
-    // General case: compute result shape and contract
-    // Result shape = [a_shape without a_axes] + [b_shape without b_axes]
-    let mut result_shape = Vec::new();
-    for i in 0..a.ndim() {
-        if !a_axes.contains(&i) {
-            result_shape.push(a.shape()[i]);
-        }
-    }
-    for i in 0..b.ndim() {
-        if !b_axes.contains(&i) {
-            result_shape.push(b.shape()[i]);
-        }
-    }
-
-    if result_shape.is_empty() {
-        result_shape.push(1); // Scalar result
-    }
-
-    let result = RumpyArray::zeros(result_shape.clone(), DType::float64());
-
-    // For now, only support up to 2D arrays
-    if a.ndim() > 2 || b.ndim() > 2 {
-        return None;
-    }
-
-    // 1D cases
-    if a.ndim() == 1 && b.ndim() == 1 {
-        // Inner product
-        let mut sum = 0.0;
-        for i in 0..a.shape()[0] {
-            sum += a.get_element(&[i]) * b.get_element(&[i]);
-        }
-        unsafe {
-            let ptr = result.data_ptr() as *mut f64;
-            *ptr = sum;
-        }
-        return Some(result);
-    }
-
-    // 2D x 1D or 1D x 2D
-    if a.ndim() == 2 && b.ndim() == 1 {
-        // axes=([1], [0]) means matrix-vector product
-        if a_axes == vec![1] && b_axes == vec![0] {
-            for i in 0..a.shape()[0] {
-                let mut sum = 0.0;
-                for j in 0..a.shape()[1] {
-                    sum += a.get_element(&[i, j]) * b.get_element(&[j]);
-                }
-                unsafe {
-                    let ptr = result.data_ptr().add(i * 8) as *mut f64;
-                    *ptr = sum;
-                }
-            }
-            return Some(result);
-        }
-    }
-
-    if a.ndim() == 1 && b.ndim() == 2 {
-        // axes=([0], [0]) means vector-matrix product
-        if a_axes == vec![0] && b_axes == vec![0] {
-            for j in 0..b.shape()[1] {
-                let mut sum = 0.0;
-                for i in 0..a.shape()[0] {
-                    sum += a.get_element(&[i]) * b.get_element(&[i, j]);
-                }
-                unsafe {
-                    let ptr = result.data_ptr().add(j * 8) as *mut f64;
-                    *ptr = sum;
-                }
-            }
-            return Some(result);
-        }
-    }
-
-    None // Unsupported case
+    // Bring both operands into matrix form, with the contracted axes last in a
+    // and first in b, and multiply
+    let free = |arr: &RumpyArray, used: &[usize]| -> Vec<usize> {
+        (0..arr.ndim()).filter(|ax| !used.contains(ax)).collect()
+    };
+    let (a_free, b_free) = (free(a, &a_axes), free(b, &b_axes));
+    if a_free.len() + a_axes.len() != a.ndim() || b_free.len() + b_axes.len() != b.ndim() {
+        return None; // an axis was given twice
+    }
+    let size = |arr: &RumpyArray, axes: &[usize]| -> usize { axes.iter().map(|&ax| arr.shape()[ax]).product() };
+    let (m, k, n) = (size(a, &a_free), size(a, &a_axes), size(b, &b_free));
+    let a_mat = a.transpose_axes(&[a_free.clone(), a_axes].concat()).reshape(vec![m, k])?;
+    let b_mat = b.transpose_axes(&[b_axes, b_free.clone()].concat()).reshape(vec![k, n])?;
+    let result_shape: Vec<usize> = a_free.iter().map(|&ax| a.shape()[ax])
+        .chain(b_free.iter().map(|&ax| b.shape()[ax]))
+        .collect();
+    crate::ops::matmul::matmul(&a_mat, &b_mat)?.reshape(result_shape)
 }
diff --git a/src/ops/matmul.rs b/src/ops/matmul.rs
index 0bcb251..3695760 100644
--- a/src/ops/matmul.rs
+++ b/src/ops/matmul.rs
@@ -44,6 +44,11 @@ impl GufuncKernel for MatmulKernel {
         let p = b.shape()[1];
         let dtype = c.dtype();
 
+        // Nothing to sum: outputs start as zeros
+        if m == 0 || n == 0 || p == 0 {
+            return;
+        }
+
         #[cfg(feature = "accelerate")]
         {
             // Use BLAS for C-contiguous arrays
@@ -374,58 +379,26 @@ fn matmul_faer_c64(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n:
 /// let c = rp.matmul(a, b);      // (3, 2, 5)
 /// ```
 pub fn matmul(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
-    // Handle 1D inputs by expanding dims
-    let (a_expanded, b_expanded, squeeze_result) = expand_for_matmul(a, b)?;
+    // NumPy semantics for 1D operands: the vector becomes a matrix for the
+    // product, and the axis added for it is removed from the result.
+    let a_exp = if a.ndim() == 1 { a.expand_dims(0)? } else { a.clone() };
+    let b_exp = if b.ndim() == 1 { b.expand_dims(1)? } else { b.clone() };
 
     let kernel = MatmulKernel::new();
-    let mut results = gufunc_call(&kernel, &[&a_expanded, &b_expanded])?;
-
+    let mut results = gufunc_call(&kernel, &[&a_exp, &b_exp])?;
     let result = results.pop()?;
 
-    // Squeeze result if we expanded inputs
-    if squeeze_result {
-        Some(result.squeeze())
-    } else {
-        Some(result)
+    let mut shape = result.shape().to_vec();
+    if b.ndim() == 1 {
+        shape.pop();
     }
-}
-
-/// Expand 1D arrays for matmul and return whether to squeeze result.
-///
-/// NumPy semantics:
-/// - 1D @ 1D -> scalar (inner product)
-/// - 1D @ 2D -> 1D (prepend 1 to first, squeeze first dim of result)
-/// - 2D @ 1D -> 1D (append 1 to second, squeeze last dim of result)
-fn expand_for_matmul(
-    a: &RumpyArray,
-    b: &RumpyArray,
-) -> Option<(RumpyArray, RumpyArray, bool)> {
-    let a_ndim = a.ndim();
-    let b_ndim = b.ndim();
-
-    match (a_ndim, b_ndim) {
-        (1, 1) => {
-            // Inner product: (n,) @ (n,) -> ()
-            // Expand to (1, n) @ (n, 1) -> (1, 1), then squeeze
-            let a_exp = a.expand_dims(0)?;
-            let b_exp = b.expand_dims(1)?;
-            Some((a_exp, b_exp, true))
-        }
-        (1, _) => {
-            // (n,) @ (..., n, p) -> (..., p)
-            // Expand to (1, n) @ (..., n, p) -> (..., 1, p), squeeze axis -2
-            let a_exp = a.expand_dims(0)?;
-            Some((a_exp, b.clone(), true))
-        }
-        (_, 1) => {
-            // (..., m, n) @ (n,) -> (..., m)
-            // Expand to (..., m, n) @ (n, 1) -> (..., m, 1), squeeze last
-            let b_exp = b.expand_dims(1)?;
-            Some((a.clone(), b_exp, true))
-        }
-        _ => {
-            // Standard 2D+ case
-            Some((a.clone(), b.clone(), false))
-        }
+    if a.ndim() == 1 {
+        let row = shape.len() - if b.ndim() == 1 { 1 } else { 2 };
+        shape.remove(row);
+    }
+    if shape.len() == result.ndim() {
+        Some(result)
+    } else {
+        result.reshape(shape)
     }
 }
-- 
2.43.0


From 983f7ef3ab55043108c6f8c333e48c8286826613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:12 +0000
Subject: [PATCH 68/72] fix: einsum of repeated labels in several operands,
 labels of one operand only and zero-length sums

---
 src/ops/einsum.rs | 142 ++++++++++------------------------------------
 1 file changed, 31 insertions(+), 111 deletions(-)

diff --git a/src/ops/einsum.rs b/src/ops/einsum.rs
index aedd0e1..6252c9d 100644
--- a/src/ops/einsum.rs
+++ b/src/ops/einsum.rs
@@ -154,8 +154,11 @@ pub fn validate_subscript(
         }
     }
 
-    // Validate output indices exist in inputs
-    for &c in &parsed.output {
+    // Validate output indices exist in inputs, once each
+    for (i, &c) in parsed.output.iter().enumerate() {
+        if parsed.output[..i].contains(&c) {
+            return Err(format!("Output index '{}' appears more than once", c));
+        }
         if !dim_map.contains_key(&c) {
             return Err(format!(
                 "Output index '{}' not found in any input subscript",
@@ -362,20 +365,6 @@ fn einsum_single(
     let a_sub = &parsed.inputs[0];
     let out_sub = &parsed.output;
 
-    // Find which output index corresponds to which a index
-    let out_to_a: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| a_sub.iter().position(|ac| ac == c))
-        .collect();
-
-    // Find contraction index positions in a (may have multiple for repeated indices)
-    let contract_in_a: Vec<(char, usize)> = contraction_indices.iter()
-        .flat_map(|&c| {
-            a_sub.iter().enumerate()
-                .filter(move |(_, ac)| **ac == c)
-                .map(move |(pos, _)| (c, pos))
-        })
-        .collect();
-
     // Compute dimensions
     let out_dims: Vec<usize> = out_sub.iter().map(|c| dim_map[c]).collect();
     let contract_dims: Vec<usize> = contraction_indices.iter().map(|c| dim_map[c]).collect();
@@ -384,12 +373,6 @@ fn einsum_single(
     let contract_size: usize = contract_dims.iter().product();
     let out_size: usize = out_shape.iter().product();
 
-    // Check for repeated indices (diagonal/trace)
-    let has_repeated_in_a = {
-        let mut seen: HashSet<char> = HashSet::new();
-        a_sub.iter().any(|c| !seen.insert(*c))
-    };
-
     let a_strides = a.strides();
     let a_ptr = a.data_ptr();
     let out_ptr = result.data_ptr();
@@ -410,20 +393,7 @@ fn einsum_single(
 
         if contraction_indices.is_empty() {
             // No contraction, just copy/transpose
-            // Build mapping from output index position to output value
-            let mut out_val_map: HashMap<char, usize> = HashMap::new();
-            for (i, &c) in out_sub.iter().enumerate() {
-                out_val_map.insert(c, out_idx[i]);
-            }
-
-            // Set all positions in a_idx that correspond to output indices
-            let mut a_idx = vec![0usize; a_sub.len()];
-            for (pos, &c) in a_sub.iter().enumerate() {
-                if let Some(&val) = out_val_map.get(&c) {
-                    a_idx[pos] = val;
-                }
-            }
-
+            let a_idx = operand_index(a_sub, out_sub, &out_idx, &[], &[]);
             let a_offset = compute_offset(&a_idx, a_strides);
             let val = unsafe { a_dtype.ops().read_f64(a_ptr, a_offset).unwrap_or(0.0) };
             sum = val;
@@ -438,43 +408,7 @@ fn einsum_single(
                     c_rem /= contract_dims[i];
                 }
 
-                // Build full a index
-                let mut a_idx = vec![0usize; a_sub.len()];
-                for (i, &maybe_a_pos) in out_to_a.iter().enumerate() {
-                    if let Some(a_pos) = maybe_a_pos {
-                        a_idx[a_pos] = out_idx[i];
-                    }
-                }
-                // Map contraction index to contraction dimension and then to position
-                let mut c_idx_map: HashMap<char, usize> = HashMap::new();
-                for (ci, &c) in contraction_indices.iter().enumerate() {
-                    c_idx_map.insert(c, c_idx[ci]);
-                }
-                for &(c, a_pos) in &contract_in_a {
-                    if let Some(&idx) = c_idx_map.get(&c) {
-                        a_idx[a_pos] = idx;
-                    }
-                }
-
-                // Handle repeated indices
-                if has_repeated_in_a {
-                    let mut idx_vals: HashMap<char, usize> = HashMap::new();
-                    let mut valid = true;
-                    for (pos, &c) in a_sub.iter().enumerate() {
-                        if let Some(&existing) = idx_vals.get(&c) {
-                            if a_idx[pos] != existing {
-                                valid = false;
-                                break;
-                            }
-                        } else {
-                            idx_vals.insert(c, a_idx[pos]);
-                        }
-                    }
-                    if !valid {
-                        continue;
-                    }
-                }
-
+                let a_idx = operand_index(a_sub, out_sub, &out_idx, contraction_indices, &c_idx);
                 let a_offset = compute_offset(&a_idx, a_strides);
                 let val = unsafe { a_dtype.ops().read_f64(a_ptr, a_offset).unwrap_or(0.0) };
                 sum += val;
@@ -491,6 +425,26 @@ fn einsum_single(
     Ok(())
 }
 
+/// Index of an operand: each axis takes the value its label has in the output
+/// or in the contraction, so a repeated label walks the diagonal.
+fn operand_index(
+    sub: &[char],
+    out_sub: &[char],
+    out_idx: &[usize],
+    contraction_indices: &[char],
+    c_idx: &[usize],
+) -> Vec<usize> {
+    sub.iter()
+        .map(|c| match out_sub.iter().position(|o| o == c) {
+            Some(i) => out_idx[i],
+            None => contraction_indices
+                .iter()
+                .position(|o| o == c)
+                .map_or(0, |i| c_idx[i]),
+        })
+        .collect()
+}
+
 fn compute_offset(idx: &[usize], strides: &[isize]) -> isize {
     idx.iter()
         .zip(strides.iter())
@@ -682,20 +636,6 @@ fn einsum_binary_elementwise(
     let contract_size: usize = contract_dims.iter().product();
     let out_size: usize = out_shape.iter().product();
 
-    // Build index mappings
-    let out_to_a: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| a_sub.iter().position(|ac| ac == c))
-        .collect();
-    let out_to_b: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| b_sub.iter().position(|bc| bc == c))
-        .collect();
-    let contract_in_a: Vec<usize> = contraction_indices.iter()
-        .filter_map(|c| a_sub.iter().position(|ac| ac == c))
-        .collect();
-    let contract_in_b: Vec<usize> = contraction_indices.iter()
-        .filter_map(|c| b_sub.iter().position(|bc| bc == c))
-        .collect();
-
     let a_strides = a.strides();
     let b_strides = b.strides();
     let a_dtype = a.dtype();
@@ -718,9 +658,7 @@ fn einsum_binary_elementwise(
         // Sum over contraction indices
         let mut sum = 0.0f64;
 
-        let contract_iters = if contract_size == 0 { 1 } else { contract_size };
-
-        for c_flat in 0..contract_iters {
+        for c_flat in 0..contract_size {
             // Decode contraction position
             let mut c_idx = vec![0usize; contract_dims.len()];
             if !contract_dims.is_empty() {
@@ -731,27 +669,8 @@ fn einsum_binary_elementwise(
                 }
             }
 
-            // Build a index
-            let mut a_idx = vec![0usize; a_sub.len()];
-            for (i, &maybe_a_pos) in out_to_a.iter().enumerate() {
-                if let Some(a_pos) = maybe_a_pos {
-                    a_idx[a_pos] = out_idx[i];
-                }
-            }
-            for (ci, &a_pos) in contract_in_a.iter().enumerate() {
-                a_idx[a_pos] = c_idx[ci];
-            }
-
-            // Build b index
-            let mut b_idx = vec![0usize; b_sub.len()];
-            for (i, &maybe_b_pos) in out_to_b.iter().enumerate() {
-                if let Some(b_pos) = maybe_b_pos {
-                    b_idx[b_pos] = out_idx[i];
-                }
-            }
-            for (ci, &b_pos) in contract_in_b.iter().enumerate() {
-                b_idx[b_pos] = c_idx[ci];
-            }
+            let a_idx = operand_index(a_sub, out_sub, &out_idx, contraction_indices, &c_idx);
+            let b_idx = operand_index(b_sub, out_sub, &out_idx, contraction_indices, &c_idx);
 
             let a_offset = compute_offset(&a_idx, a_strides);
             let b_offset = compute_offset(&b_idx, b_strides);
@@ -871,6 +790,7 @@ fn einsum_multi(
     }
 
     // Copy result to output array (dtype-aware)
+    let current = current.astype(result.dtype()); // in C order
     let out_ptr = result.data_ptr() as *mut u8;
     let cur_ptr = current.data_ptr();
     let itemsize = result.dtype().itemsize();
-- 
2.43.0


From 7c76d9c352b9aad683c8614bc2b27dc2149839f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:22 +0000
Subject: [PATCH 69/72] fix: text readers and writers keep integers exact,
 refuse what the element type cannot hold and keep missing fields and comments
 in place

---
 src/ops/io.rs | 184 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 139 insertions(+), 45 deletions(-)

diff --git a/src/ops/io.rs b/src/ops/io.rs
index cd1e34a..040ff4b 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -1,6 +1,7 @@
 //! I/O operations for reading and writing arrays to files.
 
-use crate::array::{ArrayBuffer, ArrayFlags, DType, RumpyArray};
+use crate::array::dtype::DTypeKind;
+use crate::array::{ArrayBuffer, ArrayFlags, DType, DTypeOps, RumpyArray};
 use std::fs::File;
 use std::io::{BufRead, BufReader, BufWriter, Read, Write};
 use std::path::Path;
@@ -22,7 +23,7 @@ pub fn loadtxt(
     let file = File::open(path).map_err(|e| format!("Failed to open file: {}", e))?;
     let reader = BufReader::new(file);
 
-    let mut data: Vec<f64> = Vec::new();
+    let mut data: Vec<TextNumber> = Vec::new();
     let mut ncols: Option<usize> = None;
     let mut nrows = 0usize;
     let delimiter = delimiter.unwrap_or_default();
@@ -41,12 +42,9 @@ pub fn loadtxt(
         }
 
         let line = line_result.map_err(|e| format!("Failed to read line: {}", e))?;
-        let trimmed = line.trim();
-
-        // Skip empty lines and comments
-        if trimmed.is_empty() || (!comments.is_empty() && trimmed.starts_with(comments)) {
-            continue;
-        }
+        let Some(trimmed) = text_row(&line, comments, delimiter) else {
+            continue; // empty or comment
+        };
 
         // Parse values
         let values: Vec<&str> = if delimiter.is_empty() {
@@ -84,9 +82,8 @@ pub fn loadtxt(
 
         // Parse and collect values
         for s in selected {
-            let val: f64 = s
-                .parse()
-                .map_err(|_| format!("Cannot parse '{}' as number at line {}", s, line_num + 1))?;
+            let val = parse_number(s, &dtype)
+                .map_err(|e| format!("{} at line {}", e, line_num + 1))?;
             data.push(val);
         }
 
@@ -104,7 +101,88 @@ pub fn loadtxt(
         vec![nrows, ncols]
     };
 
-    Ok(RumpyArray::from_vec_with_shape(data, shape, dtype))
+    array_from_text(data, shape, dtype)
+}
+
+/// The row a line of a table holds, without comment and line ending; `None` if there is none.
+fn text_row<'a>(line: &'a str, comments: &str, delimiter: &str) -> Option<&'a str> {
+    let content = match comments {
+        "" => line,
+        _ => line.split(comments).next().unwrap_or_default(),
+    };
+    // The delimiter can be or hold white space, and fields at either end can be missing
+    let row = match delimiter {
+        "" => content.trim(),
+        " " => content.trim_matches([' ', '\r', '\n']),
+        _ => content.trim_matches(['\r', '\n']),
+    };
+    (!row.trim_matches(' ').is_empty()).then_some(row)
+}
+
+/// A number read from text: integers keep all their digits.
+enum TextNumber {
+    Int(i128),
+    Real(f64),
+}
+
+/// Parse a number of the given dtype, or fail: integers have to be integers in range.
+fn parse_number(s: &str, dtype: &DType) -> Result<TextNumber, String> {
+    if !dtype.is_integer() {
+        return match dtype.kind() {
+            DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) | DTypeKind::Str(_) | DTypeKind::Bytes(_) => {
+                Err(format!("Cannot read dtype {} from text", dtype.ops().name()))
+            }
+            _ => s.parse().map(TextNumber::Real).map_err(|_| format!("Cannot parse '{}' as number", s)),
+        };
+    }
+    let bits = 8 * dtype.itemsize() as u32;
+    let (min, max) = match dtype.kind() {
+        DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64 => (0, (1i128 << bits) - 1),
+        _ => (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1),
+    };
+    match parse_integer(s) {
+        Some(v) if (min..=max).contains(&v) => Ok(TextNumber::Int(v)),
+        _ => Err(format!("Cannot parse '{}' as {}", s, dtype.ops().name())),
+    }
+}
+
+/// Exact value of a decimal number, possibly with fraction and exponent, if it is an integer.
+fn parse_integer(s: &str) -> Option<i128> {
+    let (mantissa, exponent) = match s.split_once(['e', 'E']) {
+        Some((m, e)) => (m, e.parse::<i32>().ok()?),
+        None => (s, 0),
+    };
+    let (int, frac) = mantissa.split_once('.').unwrap_or((mantissa, ""));
+    let frac = frac.trim_end_matches('0');
+    if !frac.bytes().all(|b| b.is_ascii_digit()) {
+        return None;
+    }
+    let int = if int.is_empty() || int == "-" || int == "+" { format!("{}0", int) } else { int.to_string() };
+    let digits: i128 = format!("{}{}", int, frac).parse().ok()?;
+    let shift = exponent.checked_sub(i32::try_from(frac.len()).ok()?)?;
+    match (digits, 10i128.checked_pow(shift.unsigned_abs())) {
+        (0, _) => Some(0),
+        (_, Some(f)) if shift >= 0 => digits.checked_mul(f),
+        (_, Some(f)) if digits % f == 0 => Some(digits / f),
+        _ => None,
+    }
+}
+
+/// Array of the numbers read from a text.
+fn array_from_text(data: Vec<TextNumber>, shape: Vec<usize>, dtype: DType) -> Result<RumpyArray, String> {
+    let mut arr = RumpyArray::zeros(vec![data.len()], dtype.clone());
+    if !data.is_empty() {
+        let ptr = Arc::get_mut(&mut arr.buffer).expect("new array").as_mut_ptr();
+        for (i, number) in data.iter().enumerate() {
+            unsafe {
+                match *number {
+                    TextNumber::Int(v) => dtype.ops().write_i64(ptr, i, v as i64),
+                    TextNumber::Real(v) => dtype.ops().write_f64(ptr, i, v),
+                };
+            }
+        }
+    }
+    arr.reshape(shape).ok_or_else(|| "Rows of different lengths".to_string())
 }
 
 /// Save array to a text file.
@@ -145,8 +223,7 @@ pub fn savetxt(
 
     if ndim == 0 {
         // Scalar
-        let val = arr.get_element(&[]);
-        let formatted = format_value(val, fmt);
+        let formatted = unsafe { format_number(ops, ptr, 0, fmt) };
         writer
             .write_all(formatted.as_bytes())
             .map_err(|e| e.to_string())?;
@@ -157,8 +234,7 @@ pub fn savetxt(
         // 1D array - write as column or row based on convention
         // NumPy writes 1D as a single column
         for offset in arr.iter_offsets() {
-            let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            let formatted = format_value(val, fmt);
+            let formatted = unsafe { format_number(ops, ptr, offset, fmt) };
             writer
                 .write_all(formatted.as_bytes())
                 .map_err(|e| e.to_string())?;
@@ -184,8 +260,7 @@ pub fn savetxt(
 
                 let flat_idx = row * ncols + col;
                 let offset = offsets[flat_idx];
-                let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-                let formatted = format_value(val, fmt);
+                let formatted = unsafe { format_number(ops, ptr, offset, fmt) };
                 writer
                     .write_all(formatted.as_bytes())
                     .map_err(|e| e.to_string())?;
@@ -215,16 +290,35 @@ pub fn savetxt(
     Ok(())
 }
 
-/// Text output goes through f64: refuse elements that have no such value (complex, strings).
+/// Text output holds real numbers: refuse other elements (complex, strings, dates).
 fn check_text_dtype(arr: &RumpyArray) -> Result<(), String> {
     let dtype = arr.dtype();
     let ops = dtype.ops();
-    if arr.size() > 0 && unsafe { ops.read_f64(arr.data_ptr(), 0) }.is_none() {
+    let is_date = matches!(dtype.kind(), DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_));
+    if is_date || (arr.size() > 0 && unsafe { ops.read_f64(arr.data_ptr(), 0) }.is_none()) {
         return Err(format!("Cannot write dtype {} as text", ops.name()));
     }
     Ok(())
 }
 
+/// Format an element using a format string; integers keep all their digits.
+unsafe fn format_number(ops: &dyn DTypeOps, ptr: *const u8, offset: isize, fmt: &str) -> String {
+    match ops.read_i64(ptr, offset) {
+        Some(v) if ops.is_integer() => {
+            let v = if ops.kind() == DTypeKind::Uint64 { v as u64 as i128 } else { v as i128 };
+            let precision = fmt.strip_prefix("%.").unwrap_or_default();
+            match (fmt, precision.strip_suffix('e'), precision.strip_suffix('f')) {
+                ("", ..) => format!("{:.18e}", v),
+                (_, Some(p), _) => format!("{:.prec$e}", v, prec = p.parse().unwrap_or(18)),
+                (_, _, Some(_)) => format_value(v as f64, fmt),
+                _ if fmt.ends_with('g') => format_value(v as f64, fmt),
+                _ => v.to_string(),
+            }
+        }
+        _ => format_value(ops.read_f64(ptr, offset).unwrap_or(0.0), fmt),
+    }
+}
+
 /// Format a value using a format string.
 fn format_value(val: f64, fmt: &str) -> String {
     if fmt.is_empty() || fmt == "%.18e" {
@@ -247,18 +341,22 @@ fn format_value(val: f64, fmt: &str) -> String {
     } else if fmt.starts_with("%.") && fmt.ends_with('g') {
         // General format
         if let Ok(precision) = fmt[2..fmt.len() - 1].parse::<usize>() {
-            // Rust doesn't have %g, approximate it
-            if val.abs() < 1e-4 || val.abs() >= 10f64.powi(precision as i32) {
-                format!("{:.prec$e}", val, prec = precision)
-            } else {
-                format!("{:.prec$}", val, prec = precision)
+            // Rust doesn't have %g: precision counts significant digits
+            let digits = precision.max(1);
+            let scientific = format!("{:.prec$e}", val, prec = digits - 1);
+            let exponent = scientific.split_once('e').and_then(|(_, e)| e.parse::<i64>().ok());
+            match exponent {
+                Some(e) if (-4..digits as i64).contains(&e) => {
+                    format!("{:.prec$}", val, prec = (digits as i64 - 1 - e) as usize)
+                }
+                _ => scientific,
             }
         } else {
             format!("{}", val)
         }
     } else if fmt.starts_with('%') && fmt.ends_with('d') {
         // Integer format
-        format!("{}", val as i64)
+        format!("{:.0}", val.trunc() + 0.0)
     } else {
         format!("{}", val)
     }
@@ -289,10 +387,12 @@ pub fn genfromtxt(
     let end_idx = lines.len().saturating_sub(skip_footer);
     let delimiter = delimiter.unwrap_or_default();
 
-    let mut data: Vec<f64> = Vec::new();
+    let mut data: Vec<TextNumber> = Vec::new();
     let mut ncols: Option<usize> = None;
     let mut nrows = 0usize;
     let mut processed_rows = 0usize;
+    let complex = matches!(dtype.kind(), DTypeKind::Complex64 | DTypeKind::Complex128);
+    let filling = filling_values.to_string();
 
     for (line_num, line) in lines.iter().enumerate() {
         // Skip header rows
@@ -312,12 +412,9 @@ pub fn genfromtxt(
             }
         }
 
-        let trimmed = line.trim();
-
-        // Skip empty lines and comments
-        if trimmed.is_empty() || (!comments.is_empty() && trimmed.starts_with(comments)) {
-            continue;
-        }
+        let Some(trimmed) = text_row(line, comments, delimiter) else {
+            continue; // empty or comment
+        };
 
         // Parse values
         let values: Vec<&str> = if delimiter.is_empty() {
@@ -355,11 +452,10 @@ pub fn genfromtxt(
 
         // Parse values with missing value handling
         for s in selected {
-            let val = if s.is_empty() || s == missing_values {
-                filling_values
-            } else {
-                s.parse().unwrap_or(filling_values)
-            };
+            let missing =
+                s.is_empty() || s == missing_values || (s.parse::<f64>().is_err() && !complex);
+            let val = parse_number(if missing { filling.as_str() } else { s }, &dtype)
+                .map_err(|e| format!("{} at line {}", e, line_num + 1))?;
             data.push(val);
         }
 
@@ -378,7 +474,7 @@ pub fn genfromtxt(
         vec![nrows, ncols]
     };
 
-    Ok(RumpyArray::from_vec_with_shape(data, shape, dtype))
+    array_from_text(data, shape, dtype)
 }
 
 // NPY format constants
@@ -802,8 +898,8 @@ fn fromfile_text(path: &Path, dtype: DType, count: isize, sep: &str) -> Result<R
         .split(sep)
         .map(str::trim)
         .filter(|s| !s.is_empty())
-        .map(|s| s.parse().map_err(|_| format!("Cannot parse '{}' as number", s)))
-        .collect::<Result<Vec<f64>, String>>()?;
+        .map(|s| parse_number(s, &dtype))
+        .collect::<Result<Vec<TextNumber>, String>>()?;
 
     let n = if count < 0 {
         values.len()
@@ -811,8 +907,7 @@ fn fromfile_text(path: &Path, dtype: DType, count: isize, sep: &str) -> Result<R
         (count as usize).min(values.len())
     };
 
-    let data = values[..n].to_vec();
-    Ok(RumpyArray::from_vec(data, dtype))
+    array_from_text(values.into_iter().take(n).collect(), vec![n], dtype)
 }
 
 /// Write array to binary file.
@@ -846,8 +941,7 @@ pub fn tofile(arr: &RumpyArray, path: &Path, sep: &str, format: &str) -> Result<
             }
             first = false;
 
-            let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            let formatted = format_value(val, format);
+            let formatted = unsafe { format_number(ops, ptr, offset, format) };
             writer.write_all(formatted.as_bytes()).map_err(|e| e.to_string())?;
         }
     }
-- 
2.43.0


From b1202410682d25de4b244c01b7fa9e939cfc3603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:38 +0000
Subject: [PATCH 70/72] fix: cumulative_sum and cumulative_prod of an array
 with an empty axis give the initial elements instead of aborting

---
 src/ops/array_methods/cumulative.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ops/array_methods/cumulative.rs b/src/ops/array_methods/cumulative.rs
index 5b46661..356ed7b 100644
--- a/src/ops/array_methods/cumulative.rs
+++ b/src/ops/array_methods/cumulative.rs
@@ -291,11 +291,14 @@ impl RumpyArray {
                 let cumul_base = i * axis_len;
                 unsafe {
                     *result_ptr.add(result_base) = identity;
-                    std::ptr::copy_nonoverlapping(
-                        cumul_ptr.add(cumul_base),
-                        result_ptr.add(result_base + 1),
-                        axis_len
-                    );
+                    // An empty array has no address of its own to copy from
+                    if axis_len > 0 {
+                        std::ptr::copy_nonoverlapping(
+                            cumul_ptr.add(cumul_base),
+                            result_ptr.add(result_base + 1),
+                            axis_len
+                        );
+                    }
                 }
             }
             return result;
-- 
2.43.0


From dddbd3ac5397275b7c363b27e878c6ccfc920074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:57 +0000
Subject: [PATCH 71/72] fix: lexsort orders NaN last whether or not the key is
 contiguous

The strided path already did; the contiguous one called NaN equal to
everything, which is not an ordering, so the result depended on layout.
---
 src/ops/array_methods/sorting.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ops/array_methods/sorting.rs b/src/ops/array_methods/sorting.rs
index e55362e..bc8e2ef 100644
--- a/src/ops/array_methods/sorting.rs
+++ b/src/ops/array_methods/sorting.rs
@@ -665,11 +665,13 @@ pub fn lexsort(keys: &[&RumpyArray]) -> Option<RumpyArray> {
                 match info.dtype.kind() {
                     DTypeKind::Float64 => {
                         let slice = unsafe { std::slice::from_raw_parts(info.ptr as *const f64, n) };
-                        slice[a].partial_cmp(&slice[b]).unwrap_or(std::cmp::Ordering::Equal)
+                        let (va, vb) = (slice[a], slice[b]);
+                        va.partial_cmp(&vb).unwrap_or_else(|| va.is_nan().cmp(&vb.is_nan()))
                     }
                     DTypeKind::Float32 => {
                         let slice = unsafe { std::slice::from_raw_parts(info.ptr as *const f32, n) };
-                        slice[a].partial_cmp(&slice[b]).unwrap_or(std::cmp::Ordering::Equal)
+                        let (va, vb) = (slice[a], slice[b]);
+                        va.partial_cmp(&vb).unwrap_or_else(|| va.is_nan().cmp(&vb.is_nan()))
                     }
                     DTypeKind::Int64 => {
                         let slice = unsafe { std::slice::from_raw_parts(info.ptr as *const i64, n) };
-- 
2.43.0


From 56687b2391cc72c994bb5bb4a2e2ac6e1af8606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:57 +0000
Subject: [PATCH 72/72] fix: unseeded generators of forked processes differ
 when the clock does not

---
 src/python/random.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/python/random.rs b/src/python/random.rs
index ff4fd7e..fbc892b 100644
--- a/src/python/random.rs
+++ b/src/python/random.rs
@@ -60,13 +60,14 @@ impl PyGenerator {
     #[pyo3(signature = (seed=None))]
     fn new(seed: Option<u64>) -> Self {
         let seed = seed.unwrap_or_else(|| {
-            // Mix the system time with std's per-instance random hash keys: the clock alone
-            // repeats when it is coarse, stalled or set back.
+            // Mix the system time with std's per-instance random hash keys and the process id:
+            // the clock alone repeats when it is coarse, stalled or set back, and a forked
+            // process inherits the keys.
             let nanos = std::time::SystemTime::now()
                 .duration_since(std::time::UNIX_EPOCH)
                 .map(|d| d.as_nanos() as u64)
                 .unwrap_or(0);
-            std::hash::RandomState::new().hash_one(nanos)
+            std::hash::RandomState::new().hash_one((nanos, std::process::id()))
         });
         Self {
             inner: Mutex::new(Generator::new(seed)),
-- 
2.43.0

