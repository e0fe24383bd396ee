import sys
R=sys.argv[1] if len(sys.argv)>1 else '/repo'
def sub(f,*prs):
    p=R+'/src/'+f; t=open(p).read()
    for a,b in prs:
        assert t.count(a)>=1,(f,a)
        t=t.replace(a,b)
    open(p,'w').write(t)
sub('basis/fourier.rs',("(PI * iter.into_iter().fold(0.0, |acc, (v, c)| acc + c * v)).cos()","iter.into_iter().map(|(v, c)| PI * c * v).sum::<f64>().cos()"))
sub('optim/isgd.rs',("        let norm = features.fold(0.0, |acc, x| acc + x * x);\n\n        self.0 / (1.0 + self.0 * norm)","        let norm = match features {\n            Features::Dense(a) => a.dot(a),\n            Features::Sparse(a) => a.iter().map(|(_, v)| v.powi(2)).sum(),\n        };\n\n        (1.0 / self.0 + norm).recip()"))
sub('optim/nesterov.rs',("""            weights.scaled_add(lr * m, &self.velocity);
            features.scaled_addto(lr * scale_factor, weights);""","""            let look: Array1<f64> = self.velocity.mapv(|v| v * m);
            let g = features.to_dense() * scale_factor;
            weights.scaled_add(lr, &(look + g));"""))
sub('optim/momentum.rs',("|x, y| *x = m * *x + y * scale_factor","|x, y| { *x *= m; *x += scale_factor * y }"))
sub('optim/adam.rs',("self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS)","m1_unbiased / (m2_unbiased.sqrt() + EPS) * self.learning_rate"),
 ("let m1_new = self.beta1 * m1[i] + (1.0 - self.beta1) * g;","let m1_new = m1[i] + (1.0 - self.beta1) * (g - m1[i]);"))
sub('optim/adamax.rs',("self.learning_rate * m_unbiased / (u_new + EPS)","(self.learning_rate / (u_new + EPS)) * m_unbiased"),("let m_new = self.beta1 * m[i] + (1.0 - self.beta1) * g;","let m_new = (1.0 - self.beta1).mul_add(g, self.beta1 * m[i]);"))
sub('optim/adagrad.rs',("*ss = *ss + g.powi(2);\n                    *w = *w + lr * g / (ss.sqrt() + EPS);","*ss += g * g;\n                    *w += lr / (ss.sqrt() + EPS) * g;"))
sub('basis/kernels/stationary.rs',("self.variance * (-0.5 * r * r).exp()","self.variance * (-(r * r) / 2.0).exp()"),
  ("(1.0 + sqrt_5 * r + 5.0 / 3.0 * r * r)","(1.0 + r * (sqrt_5 + r * 5.0 / 3.0))"),
  (".map(|(d, l)| d / l)\n                    .fold(0.0f64, |acc, z| acc + z * z)",".map(|(d, l)| d * (1.0 / l))\n                    .map(|z| z.powi(2))\n                    .sum::<f64>()"))
sub('basis/normalisation.rs',("                    da[index] / z","                    da[index] * (1.0 / z)"),("Features::Dense(da.mapv(|x| x / z))","Features::Dense(da * (1.0 / z))"))
sub('basis/polynomial/mod.rs',(".map(|(v, e)| v.borrow().powi(e as i32))\n            .product()",".map(|(v, e)| (0..e).fold(1.0, |a, _| a * v.borrow()))\n            .fold(1.0, |a, b| a * b)"),
  ("rescale!(input into self.limits)\n            .map(|v| 2.0 * v - 1.0)","input.into_iter().zip(self.limits.iter())\n            .map(|(x, (l, u))| (2.0 * x.borrow() - l - u) / (u - l))"))
sub('features.rs',("            .fold(0.0, |acc, (idx, act)| acc + weights[*idx] * act)","            .map(|(idx, act)| act * weights[*idx])\n            .sum()"),
 ("            Features::Dense(da) => da.sum(),","            Features::Dense(da) => da.iter().rev().fold(0.0, |a, b| a + b),"),
 ("""                    let mut idx_out = sa1.activations.clone();

                    for (i, a) in idx_out.iter_mut() {
                        *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));
                    }

                    for (&i, y) in sa2.activations.iter() {
                        idx_out.entry(i).or_insert_with(|| f(0.0, *y));
                    }
""","""                    let keys: std::collections::BTreeSet<usize> =
                        sa1.activations.keys().chain(sa2.activations.keys()).copied().collect();
                    let at = |sa: &SparseActivations, i: usize| sa.activations.get(&i).copied().unwrap_or(0.0);
                    let idx_out = keys.into_iter().map(|i| (i, f(at(sa1, i), at(sa2, i)))).collect();
"""),
 ("""        *self = self.merge(other, f);""","""        let merged = self.merge(other, f);
        *self = merged;"""),
 ("            for (&idx, act) in sa.iter() { weights[idx] += alpha * act; }","            sa.iter().filter(|(_, a)| **a != 0.0).for_each(|(&idx, act)| weights[idx] += act * alpha);"))
sub('lib.rs',("""            errors
                .into_iter()
                .zip(self.weights.columns_mut().into_iter())
                .fold(Ok(()), |acc, (e, mut c)| {
                    acc.and(opt.step_scaled(&mut c, b, e))
                })""","""            let mut errors = errors.into_iter();
            for mut column in self.weights.columns_mut() {
                match errors.next() {
                    Some(e) => opt.step_scaled(&mut column, b, e)?,
                    None => break,
                }
            }
            Ok(())"""),
 ("            .map(|b| (b.dot(&self.weights.view()), b))\n            .map(|(v, b)| (f(&b, v), b))","            .map(|b| {\n                let v = b.dot(&self.weights.view());\n                (f(&b, v), b)\n            })"))
sub('basis/stack.rs',(""".and_then(|f1| self.b2.project(input).map(|f2| f1.stack(f2)))""",""".and_then(|f1| {
                let f2 = self.b2.project(input)?;
                Ok(f1.stack(f2))
            })"""))
sub('basis/uniform_grid.rs',("""        let mut in_it = input.into_iter().copied();
        let mut d_it = self.feature_space.iter();

        let acc = d_it.next().unwrap().map_onto(in_it.next().unwrap());

        d_it.zip(in_it)
            .fold(acc, |acc, (d, v)| d.map_onto(v) + d.n_partitions() * acc)""","""        let mut cell = 0;
        for (d, &v) in self.feature_space.iter().zip(input) {
            cell = cell * d.n_partitions() + d.map_onto(v);
        }
        cell"""))
