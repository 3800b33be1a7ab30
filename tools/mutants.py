C = lambda *x: set(x)
B, E, Y, K, P = "shape/box.py", "shape/ellipsoid.py", "shape/cylinder.py", "shape/capsule.py", "shape/poly.py"
MUT = {
    # --- C01
    "ell_contains_notol": (E, "<= 1 + tol\n", "<= 1\n", C("C01")),
    "ell_contains_rotT": (E, "ps = (points - self.center) @ self.rotation\n        pz", "ps = (points - self.center) @ self.rotation.T\n        pz", C("C01")),
    "ell_surf_rtol": (E, "axis=1), 1.0, rtol=0, atol=tol)", "axis=1), 1.0, atol=tol)", C("C01")),
    "ell_flat_any": (E, "res_z = np.all(np.isclose(pz, 0, rtol=0, atol=tol), axis=1)", "res_z = np.any(np.isclose(pz, 0, rtol=0, atol=tol), axis=1) | (pz.shape[1] == 0)", C("C01")),
    "box_surf_noctr": (B, "points = (points - self.center) @ self.rotation\n        x_mask", "points = points @ self.rotation - self.center\n        x_mask", C("C01")),
    "box_surf_zmask": (B, "z_mask = np.isclose(np.abs(points[:, 2]), z,", "z_mask = np.isclose(points[:, 2], z,", C("C01")),
    "box_ineq_center": (B, "b = b + A @ center", "b = b + A @ (rotation @ center)", C("C01")),
    "cyl_len": (Y, "half_extents=self.length / 2,", "half_extents=self.length,", C("C01")),
    "cyl_ell2_center": (Y, "center=self.rotation[:, :2].T @ self.center", "center=self.rotation[:2, :] @ self.center", C("C01")),
    "caps_all": (K, "return np.any(contains, axis=0)", "return np.all(contains, axis=0)", C("C01")),
    "caps_onecap": (K, "self._shapes = self.caps + [self.cylinder]", "self._shapes = self.caps[:1] + [self.cylinder]", C("C01")),
    "poly_axis": (P, "return np.all(points @ self.A.T <= self.b + tol, axis=1)", "return np.all(points @ self.A.T <= self.b, axis=1)", C("C01")),
    "base_poly_tol": ("shape/base.py", "return self.contains(poly.vertices, tol=tol).all()", "return self.contains(poly.vertices).all()", C("C01", "C16")),
    "base_poly_any": ("shape/base.py", "return self.contains(poly.vertices, tol=tol).all()", "return self.contains(poly.vertices[:-1], tol=tol).all()", C("C01")),
    "ref_ell_contains": (E, "res_nz = np.sum((s * pnz) * pnz, axis=1) <= 1 + tol", "res_nz = np.linalg.norm(pnz * self.half_extents_inv[nz], axis=1) ** 2 - tol <= 1", None),
    "ref_box_surf": (B, "        x_mask = np.isclose(np.abs(points[:, 0]), x, rtol=0, atol=tol)\n        y_mask = np.isclose(np.abs(points[:, 1]), y, rtol=0, atol=tol)\n        z_mask = np.isclose(np.abs(points[:, 2]), z, rtol=0, atol=tol)\n\n        res = contained & (x_mask | y_mask | z_mask)", "        masks = [np.abs(np.abs(points[:, i]) - e) <= tol for i, e in enumerate((x, y, z))]\n        res = contained & np.any(masks, axis=0)", None),
    # --- C02
    "ell_mc_scale_center": (E, "point - scale * self.center)", "point - self.center)", C("C02")),
    "ell_mc_E": (E, "schur(scale * E_diag, p, scale) >> 0", "schur(scale * E_diag, p, 1) >> 0", C("C02")),
    "ell_mc_sqrtE": (E, "E_diag = np.diag(self.half_extents ** 2)", "E_diag = np.diag(self.half_extents)", C("C02", "C19")),
    "ell_mc_last": (E, "            constraints.append(c)\n        return constraints", "            constraints = [c]\n        return constraints", C("C02")),
    "poly_mc_scale": (P, "return [self.A @ p <= scale * self.b for p in points]", "return [self.A @ p <= self.b for p in points]", C("C02", "C16")),
    "cyl_mc_noscale": (Y, "for c in E.must_contain(P, scale=scale)", "for c in E.must_contain(P)", C("C02", "C16")),
    "caps_mc_t": (K, "self.caps[1].must_contain(p2, scale=scale - t)", "self.caps[1].must_contain(p2, scale=1 - t)", C("C02", "C16")),
    "caps_mc_same": (K, "self.caps[1].must_contain(p2,", "self.caps[0].must_contain(p2,", C("C02")),
    "caps_mc_tbound": (K, "+ [t >= 0, t <= scale, point == p1 + p2]", "+ [t >= 0, t <= 1, point == p1 + p2]", C("C02", "C16")),
    "closest_p1": ("closest.py", "p1=p1.value, p2=p2.value,", "p1=p2.value, p2=p1.value,", C("C02")),
    "closest_obj": ("closest.py", "cp.norm2(p2 - p1)", "cp.norm1(p2 - p1)", C("C02")),
    "closest_con": ("closest.py", "shape2.must_contain(p2)", "shape2.must_contain(p1)", C("C02")),
    "schur_T": ("constraint.py", "[B.T, C]])", "[B.T, 2 * C]])", C("C02")),
    "ref_ell_mc_norm": (E, "c = schur(scale * E_diag, p, scale) >> 0", "c = schur(scale * np.eye(self.dim), np.diag(1.0 / self.half_extents) @ p if (self.half_extents > 0).all() else p, scale) >> 0 if (self.half_extents > 0).all() else schur(scale * E_diag, p, scale) >> 0", None),
    "ref_caps_mc": (K, "self.caps[0].must_contain(p1, scale=t)\n                + self.caps[1].must_contain(p2, scale=scale - t)", "self.caps[1].must_contain(p1, scale=t)\n                + self.caps[0].must_contain(p2, scale=scale - t)", None),
    "ref_caps_mc_axis": (K, """            constraints.extend(
                self.caps[0].must_contain(p1, scale=t)
                + self.caps[1].must_contain(p2, scale=scale - t)
                + [t >= 0, t <= scale, point == p1 + p2]
            )""", """            e0, e1 = self.cylinder.endpoints()
            constraints.extend([
                p1 == t * e0 + (scale - t) * e1, cp.norm2(p2) <= scale * self.radius,
                t >= 0, t <= scale, point == p1 + p2])""", None),
    "ref_closest": ("closest.py", "objective = cp.Minimize(cp.norm2(p2 - p1))", "objective = cp.Minimize(cp.norm(p1 - p2))", None),
    # --- C03
    "box_rp_scale": (B, "points = rng.uniform(low=-1, high=1, size=(n, 3)) * self.half_extents\n        points = (self.rotation @ points.T).T + self.center\n        if shape == (1,):\n            return np.squeeze(points)\n        return points.reshape(shape + (3,))\n\n    def random_points_on_surface", "points = rng.uniform(low=-1, high=1, size=(n, 3)) * self.side_lengths\n        points = (self.rotation @ points.T).T + self.center\n        if shape == (1,):\n            return np.squeeze(points)\n        return points.reshape(shape + (3,))\n\n    def random_points_on_surface", C("C03")),
    "box_surf_idx": (B, "points[idx[3] : idx[4], 2] = z", "points[idx[3] : idx[4] - 1, 2] = z", C("C03")),
    "box_surf_last": (B, "points[idx[4] :, 2] = -z", "points[idx[4] : -1, 2] = -z", C("C03")),
    "box_surf_shuffle": (B, "        rng.shuffle(points)\n\n        points = (self.rotation @ points.T).T + self.center\n        if shape == (1,):\n            return np.squeeze(points)\n        return points.reshape(shape + (3,))\n\n    def random_points_on_edges", "        rng.shuffle(points.T)\n\n        points = (self.rotation @ points.T).T + self.center\n        if shape == (1,):\n            return np.squeeze(points)\n        return points.reshape(shape + (3,))\n\n    def random_points_on_edges", C("C03")),
    "box_edge_swap": (B, "[[x, y], [x, -y], [-x, -y], [-x, y]]", "[[x, y], [x, -y], [-x, -y], [-y, x]]", C("C03")),
    "box_edge_idx": (B, "points[idx[8 + i] : idx[8 + i + 1], :2] = xy", "points[idx[8 + i] : idx[9 + i] - 1, :2] = xy", C("C03")),
    "ell_rp_rot": (E, "Ainv = self.rotation @ np.diag(self.half_extents) @ self.rotation.T\n        return X", "Ainv = self.rotation.T @ np.diag(self.half_extents) @ self.rotation\n        return X", C("C03")),
    "ell_surf_rotT": (E, "points = points @ self.rotation.T + self.center\n\n        # reshape", "points = points @ self.rotation + self.center\n\n        # reshape", C("C03")),
    "cyl_rp_len": (Y, "rng.uniform(low=-0.5, high=0.5, size=shape)", "rng.uniform(low=-1, high=1, size=shape)", C("C03")),
    "cyl_rp_shape": (Y, "random_points_in_ball(shape=shape, dim=2, rng=rng)\n        if shape != 1:", "random_points_in_ball(shape=shape, dim=2, rng=rng)\n        if not np.isscalar(shape):", C("C03")),
    "ball_pow": ("random.py", "c ** (1.0 / dim) * s", "c ** (-1.0 / dim) * s", C("C03")),
    "ball_axis": ("random.py", "np.linalg.norm(X, axis=-1), axis=X.ndim - 1)", "np.linalg.norm(X, axis=0), axis=0)", C("C03")),
    "weights_axis": ("random.py", "np.sum(w, axis=-1), axis=w.ndim - 1)", "np.sum(w, axis=0), axis=0)", C("C03")),
    "rej_any": ("random.py", "new_points = candidates[c]", "new_points = candidates[: np.sum(c)]", C("C03", "C22")),
    "psd_AA": ("random.py", "return A.T @ A", "return A + A.T", C("C03")),
    "ref_box_rp": (B, "points = rng.uniform(low=-1, high=1, size=(n, 3)) * self.half_extents\n        points = (self.rotation @ points.T).T + self.center\n        if shape == (1,):\n            return np.squeeze(points)\n        return points.reshape(shape + (3,))\n\n    def random_points_on_surface", "u = rng.random(size=(n, 3))\n        points = (2 * u - 1) @ np.diag(self.half_extents) @ self.rotation.T\n        points = points + self.center\n        out = points.reshape(tuple(shape) + (3,))\n        return out[0] if shape == (1,) else out\n\n    def random_points_on_surface", None),
    "ref_ball": ("random.py", "    points = c ** (1.0 / dim) * s\n", "    points = s * np.power(c, 1.0 / dim)\n", None),
    "ref_edges": (B, """        for i, xz in enumerate([[x, z], [x, -z], [-x, -z], [-x, z]]):
            points[idx[4 + i] : idx[4 + i + 1], [0, 2]] = xz
""", """        for i in range(4):
            rows = slice(idx[4 + i], idx[5 + i])
            points[rows, 0] = x if i < 2 else -x
            points[rows, 2] = z if i in (0, 3) else -z
""", None),
    # --- C04
    "box_tr_order": (B, "        new_rotation = rotation @ self.rotation\n        new_center = rotation @ self.center + translation", "        new_rotation = self.rotation @ rotation\n        new_center = rotation @ self.center + translation", C("C04")),
    "box_tr_center": (B, "new_center = rotation @ self.center + translation", "new_center = self.center + translation", C("C04")),
    "box_rac": (B, "        center = self.center.copy()\n        half_extents = self.half_extents.copy()\n        return Box(\n            half_extents=half_extents, center=center", "        center = rotation @ self.center\n        half_extents = self.half_extents.copy()\n        return Box(\n            half_extents=half_extents, center=center", C("C04")),
    "ell_rac": (E, "        new_rotation = rotation @ self.rotation\n        half_extents = self.half_extents.copy()\n        center", "        new_rotation = self.rotation @ rotation\n        half_extents = self.half_extents.copy()\n        center", C("C04")),
    "ell_tr_dim": (E, "rotation=rotation, translation=translation, dim=self.dim", "rotation=rotation, translation=translation", C("C04")),
    "cyl_tr": (Y, "new_center = rotation @ self.center + translation", "new_center = rotation @ (self.center + translation)", C("C04")),
    "caps_tr": (K, "rotation=rotation, translation=translation\n        ).capsule()", "translation=translation\n        ).capsule()", C("C04")),
    "poly_tr": (P, "self.vertices @ rotation.T + translation", "self.vertices @ rotation + translation", C("C04")),
    "span_tr_rays": ("polydd.py", "rays = (rotation @ self.rays.T).T", "rays = (rotation @ self.rays.T).T + translation", C("C04")),
    "face_tr_b": ("polydd.py", "b = self.b + A @ translation", "b = self.b + self.A @ translation", C("C04")),
    "par_tr_H": ("inertial.py", "H = rotation @ self.Hc @ rotation.T + self.mass * np.outer(com, com)", "H = rotation @ self.H @ rotation.T + self.mass * np.outer(translation, translation)", C("C04")),
    "body_tr_params": ("rigidbody.py", "params = self.params.transform(\n            rotation=rotation, translation=translation", "params = self.params.transform(\n            rotation=rotation.T, translation=translation", C("C04")),
    "body_tr_shapes": ("rigidbody.py", "shape.transform(rotation=rotation, translation=translation)\n            for shape in self.shapes", "shape.transform(rotation=rotation)\n            for shape in self.shapes", C("C04")),
    "tminv": ("util.py", "translation=-rotation.T @ translation", "translation=-rotation @ translation", C("C04")),
    "tm_place": ("util.py", "T[:dim, -1] = translation", "T[-1, :dim] = translation", C("C04")),
    "cyl_ends": (Y, "def endpoints(self):", "def endpoints(self, _f=0.25):", None),
    "ref_par_tr": ("inertial.py", """        com = rotation @ self.com + translation
        H = rotation @ self.Hc @ rotation.T + self.mass * np.outer(com, com)
        return InertialParameters(mass=self.mass, com=com, H=H)""", """        T = np.eye(4)
        T[:3, :3] = rotation
        T[:3, 3] = translation
        J = T @ self.J @ T.T
        com = rotation @ self.com + translation
        return InertialParameters(mass=self.mass, com=com, H=J[:3, :3])""", None),
    "ref_poly_tr": (P, "        new_vertices = self.vertices @ rotation.T + translation\n        return self.from_vertices(new_vertices)", "        span = SpanForm((rotation @ self.vertices.T).T + translation)\n        A = self.A @ rotation.T\n        face = FaceForm(A_ineq=A, b_ineq=self.b + A @ translation)\n        return ConvexPolyhedron(face_form=face, span_form=span)", None),
    "ref_box_tr": (B, "        new_rotation = rotation @ self.rotation\n        new_center = rotation @ self.center + translation\n        half_extents = self.half_extents.copy()\n", "        new_rotation = np.dot(rotation, self.rotation)\n        new_rotation = -new_rotation[:, [1, 0, 2]]\n        new_center = (self.center[None, :] @ rotation.T)[0] + translation\n        half_extents = self.half_extents[[1, 0, 2]]\n", None),
    # --- C05
    "box_mie_sphere": (B, "radius = np.min(self.half_extents)", "radius = np.median(self.half_extents)", C("C05")),
    "box_mbe_sphere": (B, "radius = np.linalg.norm(self.half_extents)", "radius = np.sqrt(3) * np.mean(self.half_extents)", C("C05")),
    "box_mbe_norot": (B, "        return Ellipsoid(\n            half_extents=half_extents,\n            center=self.center,\n            rotation=self.rotation,", "        return Ellipsoid(\n            half_extents=half_extents,\n            center=self.center,\n            rotation=self.rotation.T,", C("C05")),
    "ell_mib": (E, "half_extents=self.half_extents / np.sqrt(3)", "half_extents=self.half_extents / np.sqrt(2)", C("C05")),
    "ell_aabb": (E, "v_max = self.center + np.sqrt(np.diag(self.E))", "v_max = self.center + np.abs(self.rotation @ self.half_extents)", C("C05")),
    "ell_mbe_sphere": (E, "radius = np.max(self.half_extents)\n        return Ellipsoid.sphere(radius=radius, center=self.center)", "radius = self.half_extents[0]\n        return Ellipsoid.sphere(radius=radius, center=self.center)", C("C05")),
    "cyl_aabb_disk": (Y, "center=c[1],", "center=c[0],", C("C05")),
    "cyl_mib": (Y, "r = self.radius / np.sqrt(2)", "r = self.radius / 2", C("C05")),
    "cyl_mbb": (Y, "half_extents = [self.radius, self.radius, self.length / 2]", "half_extents = [self.length / 2, self.radius, self.radius]", C("C05")),
    "cyl_volume": (Y, "return np.pi * self.radius**2 * self.length", "return np.pi * self.radius**2 * self.length / 2", C("C05")),
    "caps_aabb": (K, "for cap in self.caps])\n        return Box", "for cap in self.caps[:1]])\n        return Box", C("C05")),
    "caps_mbb": (K, "self.full_length / 2]", "self.inner_length / 2]", C("C05")),
    "box_points_axis": (B, "v_max = np.max(points, axis=0)", "v_max = np.max(points[1:], axis=0, initial=points[0].max())", C("C05")),
    "box_diag": (B, "return 2 * np.linalg.norm(self.half_extents)", "return 2 * np.sum(self.half_extents)", C("C05")),
    "ref_ell_aabb": (E, "        v_max = self.center + np.sqrt(np.diag(self.E))\n        v_min = self.center - np.sqrt(np.diag(self.E))\n        return Box.from_two_vertices(v_min, v_max)", "        w = np.linalg.norm(self.rotation * self.half_extents, axis=1)\n        return Box(half_extents=w, center=self.center)", None),
    "ref_cyl_aabb": (Y, """        points = np.vstack((disk1.aabb().vertices, disk2.aabb().vertices))
        return Box.from_points_to_bound(points)""", """        w = np.abs(self.rotation[:, 2]) * self.length / 2
        w = w + self.radius * np.sqrt(self.rotation[:, 0] ** 2 + self.rotation[:, 1] ** 2)
        return Box.from_two_vertices(self.center - w, self.center + w)""", None),
    "ref_cyl_mbe": (Y, "return self.mib().mbe(rcond=rcond, sphere=sphere, solver=solver)", "h = np.array([self.radius / np.sqrt(2)] * 2 + [self.length / 2])\n        if sphere:\n            return Ellipsoid.sphere(np.hypot(self.radius, self.length / 2), center=self.center)\n        return Ellipsoid(half_extents=np.sqrt(3) * h, center=self.center, rotation=self.rotation)", None),
    "ref_box_aabb": (B, "    def as_poly(self):", "    def aabb(self):\n        w = np.abs(self.rotation) @ self.half_extents\n        return Box(half_extents=w, center=self.center)\n\n    def as_poly(self):", None),
    # --- C06
    "par_com_zero": ("inertial.py", "if h is None or (mass == 0 and not np.any(h)):", "if h is None or mass < 1e-3:", C("C06")),
    "par_transl_I": ("inertial.py", "        if translate_from_com:\n            H = H + mass", "        if translate_from_com and I is None:\n            H = H + mass", C("C06")),
    "par_none_com": ("inertial.py", "                if translate_from_com:\n                    H = np.zeros((3, 3))\n                else:\n                    H = mass * np.outer(com, com)", "                H = mass * np.outer(com, com)", C("C06")),
    "par_J_row": ("inertial.py", "        J[3, :3] = self.h\n", "        J[3, :3] = self.com\n", C("C06")),
    "par_M_sign": ("inertial.py", "np.block([[self.I, S], [-S,", "np.block([[self.I, S], [S,", C("C06", "C08")),
    "par_vec_order": ("inertial.py", "[vec[4], vec[5], vec[6]],\n            [vec[5], vec[7], vec[8]],\n            [vec[6], vec[8], vec[9]]", "[vec[4], vec[5], vec[6]],\n            [vec[5], vec[7], vec[8]],\n            [vec[6], vec[5], vec[9]]", C("C06")),
    "par_add_h": ("inertial.py", "h=self.h + other.h, H=self.H + other.H", "h=self.h + other.h, H=self.Hc + other.Hc", C("C06")),
    "par_ptm": ("inertial.py", "J = sum([m * np.outer(p, p) for m, p in zip(masses, P)])", "J = sum([m * np.outer(p, p) for m, p in zip(masses, P) if m >= 1e-3])", C("C06")),
    "unvech_low": ("util.py", "idxl = np.tril_indices(n, k=-1)\n    A[idxl] = A.T[idxl]", "idxl = np.tril_indices(n, k=-1)\n    A[idxl] = A.T[idxl[::-1]]", C("C06")),
    "vech_k": ("util.py", "idx = np.triu_indices(n, k=k)", "idx = np.triu_indices(n)", C("C06")),
    "tri_num": ("util.py", "return n.is_integer(), int(n)", "return n.is_integer(), int(n) + (n > 9)", C("C06")),
    "pim_tab": ("constraint.py", "As[7][1, 1] = -0.5", "As[7][1, 1] = 0.5", C("C06")),
    "pim_tab2": ("constraint.py", "As[8][2, 1] = -1", "As[8][2, 0] = -1", C("C06")),
    "body_add": ("rigidbody.py", "params = self.params + other.params", "params = self.params", C("C06")),
    "rand_par": ("inertial.py", "H = random_psd_matrix(n=3, rng=rng) + mass * np.outer(com, com)", "H = random_psd_matrix(n=3, rng=rng)", C("C06")),
    "ref_par_vec": ("inertial.py", "        return np.concatenate([[self.mass], self.h, vech(self.I)])", "        v = np.zeros(10)\n        v[0] = self.mass\n        v[1:4] = self.mass * self.com\n        I = self.I\n        v[4:7] = I[0]\n        v[7:9] = I[1, 1:]\n        v[9] = I[2, 2]\n        return v", None),
    "ref_unvech": ("util.py", "    idxl = np.tril_indices(n, k=-1)\n    A[idxl] = A.T[idxl]\n\n    return A", "    return A + A.T - np.diag(np.diag(A))", None),
    "ref_ptm": ("inertial.py", "J = sum([m * np.outer(p, p) for m, p in zip(masses, P)])", "J = (P * masses[:, None]).T @ P", None),
    "ref_pim_tab": ("constraint.py", "    return As\n", "    table = np.zeros((10, 4, 4))\n    for k, A in enumerate(As):\n        table[k] = A\n    return list(table)\n", None),
    # --- C07
    "box_unif": (B, "H = mass * np.diag(self.half_extents**2) / 3.0", "H = mass * np.diag(self.half_extents**2) / 12.0", C("C07")),
    "box_hollow": (B, "Hyy = y**2 * (x * y + 3 * x * z + y * z) / d\n        Hzz = z**2 * (3 * x * y + x * z + y * z) / d", "Hyy = y**2 * (3 * x * y + x * z + y * z) / d\n        Hzz = z**2 * (x * y + 3 * x * z + y * z) / d", C("C07")),
    "box_wire": (B, "Hzz = z**2 * (x + y + z / 3) / d", "Hzz = z**2 * (x + y + z) / d", C("C07")),
    "box_wire_pose": (B, "        d = x + y + z\n", "        d = x + y + z if np.allclose(self.center, 0) else x + y + 2 * z\n", C("C07")),
    "cyl_unif": (Y, "Hz = mass * self.length**2 / 12.0", "Hz = mass * self.length**2 / 3.0", C("C07")),
    "cyl_unif_pose": (Y, "        return InertialParameters(mass=mass, h=np.zeros(3), H=H).transform(\n            rotation=self.rotation, translation=self.center", "        return InertialParameters(mass=mass, h=np.zeros(3), H=H).transform(\n            rotation=self.rotation.T, translation=self.center", C("C07")),
    "ell_unif": (E, "np.diag(self.half_extents**2) / 5.0", "np.diag(self.half_extents**2) / 3.0", C("C07")),
    "ell_hollow": (E, "        d = 5 * (x * y + x * z + y * z)\n        Hxx = x**2 * (x * y + x * z + 3 * y * z) / d", "        d = 5 * (x * y + x * z + y * z)\n        Hxx = x**2 * (x * y + x * z + y * z) / d", C("C07")),
    "poly_ptm": (P, "masses = mass * np.ones(self.nv) / self.nv", "masses = mass * np.ones(self.nv)", C("C07")),
    "ref_box_wire": (B, """        d = x + y + z
        Hxx = x**2 * (x / 3 + y + z) / d
        Hyy = y**2 * (x + y / 3 + z) / d
        Hzz = z**2 * (x + y + z / 3) / d
        H = mass * np.diag([Hxx, Hyy, Hzz])
""", """        e = self.half_extents
        H = np.diag(mass * e**2 * (1 - 2 * e / (3 * np.sum(e))))
""", None),
    "ref_cyl_unif": (Y, "        return InertialParameters(mass=mass, h=np.zeros(3), H=H).transform(\n            rotation=self.rotation, translation=self.center\n        )", "        Q = self.rotation\n        return InertialParameters(mass=mass, com=self.center, H=Q @ H @ Q.T, translate_from_com=True)", None),
    # --- C08
    "skew": ("util.py", "[[0, -z, y], [z, 0, -x], [-y, x, 0]]", "[[0, -z, y], [z, 0, -x], [y, -x, 0]]", C("C08", "C06")),
    "lift3": ("util.py", "[   0,    0, x[0],    0, x[1], x[2]]", "[   0,    0, x[0],    0, x[2], x[1]]", C("C08")),
    "lift6": ("util.py", "-skew3(a),         lift3(b)", "skew3(a),         lift3(b)", C("C08")),
    "sv_fromvec": ("spatial.py", "return cls(linear=vec[3:], angular=vec[:3])", "return cls(linear=vec[:3], angular=vec[3:])", C("C08")),
    "sv_adj": ("spatial.py", "[[Sω, np.zeros((3, 3))], [Sv, Sω]]", "[[Sω, Sv], [np.zeros((3, 3)), Sω]]", C("C08")),
    "sv_div": ("spatial.py", "linear=self.linear / other, angular=self.angular / other", "linear=self.linear / other, angular=self.angular", C("C08")),
    "wrench": ("inertial.py", "M @ A.vec - V.adjoint().T @ M @ V.vec", "M @ A.vec + V.adjoint() @ M @ V.vec", C("C08")),
    "regress": ("rigidbody.py", "lift6(A) - V.adjoint().T @ lift6(V)", "lift6(A) - V.adjoint().T @ lift6(A)", C("C08")),
    "contact": ("util.py", "np.vstack((skew3(point), np.eye(3)))", "np.vstack((skew3(point).T, np.eye(3)))", C("C08")),
    "rmse": ("util.py", "square = np.sum(error @ W * error, axis=1)", "square = np.sum(error @ W @ W * error, axis=1)", C("C08")),
    "evalt": ("util.py", "n = int(np.ceil(duration / step))", "n = int(np.floor(duration / step)) + 1", C("C08")),
    "ref_wrench": ("inertial.py", "        return SV.from_vec(M @ A.vec - V.adjoint().T @ M @ V.vec)", "        p = M @ V.vec\n        w, v = V.angular, V.linear\n        f = np.concatenate((np.cross(w, p[:3]) + np.cross(v, p[3:]), np.cross(w, p[3:])))\n        return SV.from_vec(M.dot(A.vec) + f)", None),
    "ref_lift3": ("util.py", "def lift6(V):", "def lift3(x):\n    assert x.shape == (3,)\n    out = np.zeros((3, 6))\n    for k, (i, j) in enumerate(zip(*np.triu_indices(3))):\n        out[i, k] += x[j]\n        if i != j:\n            out[j, k] += x[i]\n    return out\n\n\ndef lift6(V):", None),
    # --- C12
    "mi_add": ("moment.py", "value = (a + b for a, b in zip(self.value, other.value))", "value = (a + b for a, b in zip(self.value, other.value[::-1]))", C("C12")),
    "mi_radd0": ("moment.py", "return self + other\n\n    def __mul__(self, other):\n        return self + other", "return self + other\n\n    def __mul__(self, other):\n        return MomentIndex(max(a, b) if a > 3 else a + b for a, b in zip(self.value, other.value))", C("C12")),
    "poly_tol": ("moment.py", "if not np.isclose(coeff, 0, rtol=0, atol=tol):", "if coeff > tol:", C("C12")),
    "poly_aff": ("moment.py", "coefficients = {(0,) * n: b}", "coefficients = {(0,) * n: abs(b)}", C("C12")),
    "poly_deg": ("moment.py", "np.max([np.sum(idx.value)", "np.max([np.max(idx.value)", C("C12")),
    "poly_addalias": ("moment.py", "coefficients = self.coefficients.copy()", "coefficients = self.coefficients", C("C12")),
    "poly_dim": ("moment.py", "return math.comb(n + d, d)", "return math.comb(n + d, n) if d else n", C("C12")),
    "poly_basis": ("moment.py", "itertools.combinations_with_replacement(basis, d)", "itertools.product(basis, repeat=d)", C("C12")),
    "poly_basis2": ("moment.py", "        return [\n            sum(group, basis[0])", "        return [\n            sum(group[:4], basis[0])", C("C12")),
    "mm_half": ("moment.py", "v = (deg + 1) // 2\n\n            # compute", "v = deg // 2\n\n            # compute", C("C12")),
    "mm_loc": ("moment.py", "M[i, j] = poly.localize(self.indices[i, j])", "M[i, j] = poly.localize(self.indices[i, i] if i == j else self.indices[0, j])", C("C12")),
    "mm_cons": ("moment.py", "            for j in range(L_var.shape[1]):\n                constraints.append(", "            for j in range(i, L_var.shape[1] - (i > 1)):\n                constraints.append(", C("C12")),
    "mm_mom": ("moment.py", "            for j in range(i, self.r):\n                sub = self.indices[i, j]", "            for j in range(i, self.r - (i == 0)):\n                sub = self.indices[i, j]", C("C12")),
    "ref_mm_basis": ("moment.py", """        basis = [MomentIndex(np.zeros(n, dtype=int))]
        for i in range(n):
            b = np.zeros(n, dtype=int)
            b[i] = 1
            basis.append(MomentIndex(b))
        return [
            sum(group, basis[0])
            for group in itertools.combinations_with_replacement(basis, d)
        ]
""", """        out = [e for e in itertools.product(range(d + 1), repeat=n) if sum(e) <= d]
        out.sort(key=lambda e: (sum(e), tuple(-k for k in e)))
        return [MomentIndex(e) for e in out]
""", None),
    "ref_mm_half": ("moment.py", """            if deg % 2 == 0:
                v = deg // 2
            else:
                v = (deg + 1) // 2

            # compute""", """            v = int(math.ceil(deg / 2))

            # compute""", None),
    "ref_mm_eval": ("moment.py", """        return np.sum(
            [
                coeff * np.prod(x**idx.value)
                for idx, coeff in self.coefficients.items()
            ]
        )
""", """        total = 0.0
        for idx, coeff in self.coefficients.items():
            term = coeff
            for xi, k in zip(x, idx.value):
                term = term * xi**k
            total += term
        return total
""", None),
    # --- C13
    "sf_span": ("polydd.py", "span_rays = np.vstack((span, -span))", "span_rays = np.vstack((span, span))", C("C13")),
    "sf_span2": ("polydd.py", "self.rays = np.vstack((self.rays, span_rays))", "self.rays = np.vstack((self.rays, span))", C("C13")),
    "sf_tag": ("polydd.py", "            S[self.nv :, 0] = 0.0\n            S[self.nv :, 1:] = self.rays", "            S[:, 0] = 1.0\n            S[self.nv :, 1:] = self.rays", C("C13")),
    "sf_rep": ("polydd.py", "Smat.rep_type = cdd.RepType.GENERATOR", "Smat.rep_type = cdd.RepType.INEQUALITY", C("C13")),
    "sf_lin": ("polydd.py", "            r_mask[lin_idx] = False\n", "", C("C13")),
    "sf_lin2": ("polydd.py", "            s_mask[lin_idx] = True\n", "", C("C13")),
    "sf_none": ("polydd.py", "        if mat.row_size == 0:\n            return None\n", "", C("C13")),
    "sf_bounded": ("polydd.py", "return self.rays is None and self.vertices is not None", "return self.vertices is not None", C("C13")),
    "ff_eq": ("polydd.py", "self.A = np.vstack((A_ineq, A_eq, -A_eq))\n            self.b = np.concatenate((b_ineq, b_eq, -b_eq))", "self.A = np.vstack((A_ineq, A_eq))\n            self.b = np.concatenate((b_ineq, b_eq))", C("C13")),
    "ff_eqsign": ("polydd.py", "np.concatenate((b_ineq, b_eq, -b_eq))", "np.concatenate((b_ineq, b_eq, b_eq))", C("C13")),
    "ff_lin": ("polydd.py", "A_eq=A[eq_idx, :] if len(eq_idx) > 0 else None,\n            b_eq=b[eq_idx] if len(eq_idx) > 0 else None,", "A_eq=A[eq_idx, :] if len(eq_idx) > 1 else None,\n            b_eq=b[eq_idx] if len(eq_idx) > 1 else None,", C("C13")),
    "ff_sign": ("polydd.py", "F = np.hstack((self.b[:, None], -self.A))", "F = np.hstack((-self.b[:, None], self.A))", C("C13")),
    "ff_stack": ("polydd.py", "b = np.concatenate((self.b, other.b))", "b = np.concatenate((other.b, self.b))", C("C13")),
    "pl_bounded": (P, '        if not span_form.bounded():\n            raise ValueError("Only bounded polyhedra are supported.")\n', "", C("C13", "C18")),
    "pl_prune": (P, "            span_form = span_form.canonical()", "            span_form.canonical()", C("C13", "C16")),
    "pl_inter": (P, "        if span_form is None:\n            return None\n        return ConvexPolyhedron(span_form=span_form)", "        if span_form is None or span_form.nv <= 3:\n            return None\n        return ConvexPolyhedron(span_form=span_form)", C("C13")),
    "pl_inter2": (P, "span_form = self.face_form.stack(other.face_form).to_span_form()", "span_form = other.face_form.stack(other.face_form).to_span_form()", C("C13")),
    "pl_simplex": (P, "np.vstack((np.zeros(dim), np.diag(extents)))", "np.vstack((np.zeros(dim), np.diag(extents[::-1])))", C("C13")),
    "unord": ("test_util.py", "test = np.logical_and(equal, ~B_checked)", "test = equal", C("C13")),
    "ref_sf_to": ("polydd.py", """        n = self.nv + self.nr
        S = np.zeros((n, self.dim + 1))
        if self.vertices is not None:
            S[: self.nv, 0] = 1.0
            S[: self.nv, 1:] = self.vertices
        if self.rays is not None:
            S[self.nv :, 0] = 0.0
            S[self.nv :, 1:] = self.rays
        Smat = cdd.Matrix(S)""", """        rows = []
        if self.rays is not None:
            rows += [[0.0, *r] for r in self.rays]
        if self.vertices is not None:
            rows += [[1.0, *v] for v in self.vertices]
        Smat = cdd.Matrix(rows)""", None),
    "ref_ff_from": ("polydd.py", """        ineq_idx = np.array(
            [idx for idx in range(mat.row_size) if idx not in mat.lin_set]
        )
        eq_idx = np.array([idx for idx in mat.lin_set])

        return cls(
            A_ineq=A[ineq_idx, :],
            b_ineq=b[ineq_idx],
            A_eq=A[eq_idx, :] if len(eq_idx) > 0 else None,
            b_eq=b[eq_idx] if len(eq_idx) > 0 else None,
        )""", """        mask = np.zeros(mat.row_size, dtype=bool)
        for idx in mat.lin_set:
            mask[idx] = True
        A_ineq, b_ineq = A[~mask], b[~mask]
        if not np.any(mask):
            return cls(A_ineq, b_ineq)
        return cls(A_ineq, b_ineq, A_eq=A[mask], b_eq=b[mask])""", None),

    # --- C14
    "mut_hollow_inplace": (E, "new_center = rotation @ self.center + translation\n        half_extents", "new_center = translation\n        new_center += rotation @ self.center\n        half_extents", C("C14")),
    "mut_body_extend": ("rigidbody.py", "shapes = self.shapes + other.shapes\n", "shapes = self.shapes\n        shapes += other.shapes\n", C("C14")),
    "mut_shuffle_vertices": (P, "points = w @ self.vertices\n", "rng = np.random.default_rng(rng)\n        rng.shuffle(self.vertices)\n        points = w @ self.vertices\n", C("C14")),
    "mut_r_minus": (P, "P = (self.vertices - r) @ R", "P = self.vertices\n        P -= r\n        P = P @ R", C("C14")),
    "mut_poly_coeffs": ("moment.py", "coefficients = self.coefficients.copy()", "coefficients = self.coefficients", C("C14")),
    "mut_cyl_aabb": (B, "        v1 = np.array(v1)\n        v2 = np.array(v2)\n        center = 0.5 * (v1 + v2)\n", "        v1 = np.array(v1)\n        v2 = np.asarray(v2)\n        center = v2\n        center += v1\n        center = 0.5 * center\n", C("C14", "C05")),
    "ref_body_add": ("rigidbody.py", "shapes = self.shapes + other.shapes\n", "shapes = list(self.shapes)\n        shapes += other.shapes\n", None),
    "ref_box_from2": (B, "center = 0.5 * (v1 + v2)\n", "center = v1.copy().astype(float)\n        center += v2\n        center *= 0.5\n", None),
    # --- C15
    "rng_reseed_rej": ("random.py", "candidates = bounding_shape.random_points(n - m, rng=rng)", "candidates = bounding_shape.random_points(n - m, rng=np.random.default_rng(tries))", C("C15")),
    "rng_drop_rej": ("random.py", "candidates = bounding_shape.random_points(n - m, rng=rng)", "candidates = bounding_shape.random_points(n - m)", C("C15", "C16")),
    "rng_global": ("random.py", "    A = rng.uniform(low=-1, high=1, size=(n, n))", "    A = 2 * np.random.random((n, n)) - 1", C("C15")),
    "rng_sepcopies": (B, "        counts = rng.multinomial(n=n, pvals=pvals)\n", "        counts = np.random.default_rng(5).multinomial(n=n, pvals=pvals)\n", C("C15")),
    "rng_capsule_noseed": (K, "rng=rng", "rng=None", C("C15", "C16")),
    "state_cache_vol": (B, """    @property
    def volume(self):
        \"\"\"The volume of the box.\"\"\"
        return np.prod(self.side_lengths)
""", """    _vols = {}

    @property
    def volume(self):
        \"\"\"The volume of the box.\"\"\"
        key = self.center.shape
        if key not in self._vols:
            self._vols[key] = np.prod(self.side_lengths)
        return self._vols[key]
""", C("C15")),
    "state_cached_prop": ([(E, "import numpy as np\n", "import functools\nimport numpy as np\n"), (E, "        half_extents = self.half_extents.copy()\n        center = self.center.copy()\n        return Ellipsoid(\n            half_extents=half_extents, rotation=new_rotation, center=center\n        )", "        import copy\n\n        new = copy.copy(self)\n        new.rotation = new_rotation\n        return new\n\n    @functools.cached_property\n    def E(self):\n        return self.rotation @ np.diag(self.half_extents**2) @ self.rotation.T\n"), (E, "    @property\n    def E(self):", "    @property\n    def E_old(self):")], C("C15")),
    "ref_state_lru_len": ([(Y, "import numpy as np\n", "import functools\nimport numpy as np\n"), (Y, "    def endpoints(self):", "    @functools.lru_cache(maxsize=None)\n    def _ends(self):\n        return [self.center]\n\n    def endpoints(self):\n        self._ends()")], None),
    "state_mutdefault": ("rigidbody.py", "    def __init__(self, shapes, params=None):\n        if not isinstance(shapes, Iterable):\n            shapes = [shapes]\n", "    def __init__(self, shapes, params=None, _acc=[]):\n        if not isinstance(shapes, Iterable):\n            _acc.append(shapes)\n            shapes = _acc\n", C("C15")),
    "ref_rng_once": ("random.py", "    rng = np.random.default_rng(rng)\n    A = rng.uniform(low=-1, high=1, size=(n, n))", "    gen = rng if isinstance(rng, np.random.Generator) else np.random.default_rng(rng)\n    A = 2 * gen.random((n, n)) - 1", None),
    "ref_state_cachedprop": ([("shape/box.py", "import numpy as np\nimport cvxpy as cp\n", "import functools\nimport numpy as np\nimport cvxpy as cp\n"), ("shape/box.py", """    @property
    def volume(self):
        \"\"\"The volume of the box.\"\"\"
        return np.prod(self.side_lengths)
""", """    @functools.cached_property
    def volume(self):
        \"\"\"The volume of the box.\"\"\"
        return np.prod(self.side_lengths)
""")], None),
    "ref_state_lru": ([("util.py", "import numpy as np\n", "import functools\nimport numpy as np\n"), ("util.py", "def box_vertices(half_extents):", "@functools.lru_cache(maxsize=None)\ndef _nothing(n):\n    return n\n\n\ndef box_vertices(half_extents):\n    _nothing(3)")], None),
    # --- C16
    "opt_cp_solver": ("closest.py", "problem.solve(solver=solver)", "problem.solve()", C("C16")),
    "opt_solver_or": ("shape/ellipsoid.py", "    problem.solve(solver=solver)\n\n    center = np.linalg.solve", "    problem.solve(solver=solver or cp.CLARABEL)\n\n    center = np.linalg.solve", C("C16")),
    "opt_mie_rcond": (P, "N = null_space(R.T, rcond=rcond)", "N = null_space(R.T)", C("C16")),
    "opt_mbe_rcond_or": (E, "N = null_space((R @ V).T, rcond=rcond)", "N = null_space((R @ V).T, rcond=rcond or 1e-8)", C("C16")),
    "opt_capsule_tol": (K, "shape.contains(points, tol=tol) for shape in self._shapes", "shape.contains(points) for shape in self._shapes", C("C16", "C01")),
    "opt_cyl_same_tol": (Y, "np.isclose(self.radius, other.radius, atol=tol)", "np.isclose(self.radius, other.radius)", C("C16")),
    "opt_tol_max": (E, "res_nz = np.sum((s * pnz) * pnz, axis=1) <= 1 + tol", "res_nz = np.sum((s * pnz) * pnz, axis=1) <= 1 + max(tol, 1e-8)", C("C16", "C01")),
    "opt_box_surface": (B, "contained = self.contains(points, tol=tol)", "contained = self.contains(points)", C("C16", "C01")),
    "opt_poly_same": (P, ") and other.contains_polyhedron(self, tol=tol)", ") and other.contains_polyhedron(self)", C("C16")),
    "opt_body_d": ("rigidbody.py", "return shape.moment_sdp_constraints(J, eps=eps, d=d)", "return shape.moment_sdp_constraints(J, eps=eps)", C("C16")),
    "opt_body_eps": ("rigidbody.py", "pim_must_equal_param_var(param_var, eps=eps)", "pim_must_equal_param_var(param_var, eps=0)", C("C16")),
    "opt_body_eps1": ("rigidbody.py", "return moment_constraints(self.shapes[0], param_var, eps=eps)", "return moment_constraints(self.shapes[0], param_var)", C("C16")),
    "opt_body_sphere": ("rigidbody.py", "shape.mbe(sphere=sphere, solver=solver)", "shape.mbe(solver=solver)", C("C16")),
    "opt_body_solver": ("rigidbody.py", "shape.mbe(sphere=sphere, solver=solver)", "shape.mbe(sphere=sphere)", C("C16")),
    "opt_disk_eps": (Y, "J, psd_constraints = pim_must_equal_param_var(param_var, eps)\n        T =", "J, psd_constraints = pim_must_equal_param_var(param_var, 0)\n        T =", C("C16")),
    "opt_feas_d": (P, "constraints = self.moment_sdp_constraints(param_var, eps=eps, d=d)", "constraints = self.moment_sdp_constraints(param_var, eps=eps)", C("C16")),
    "opt_mbe_pts_sphere": (E, "constraints.append(A == a * np.eye(rank))", "constraints.append(cp.trace(A) == a)", C("C16", "C20")),
    "opt_W_default": ("util.py", "W = np.eye(6)", "W = 2 * np.eye(6)", C("C16", "C08")),
    "opt_prune": (P, "prune=False):\n        \"\"\"Construct", "prune=True):\n        \"\"\"Construct", C("C16", "C13")),
    "opt_can_realize_eps": (E, "if not params.consistent(eps=eps):", "if not params.consistent():", C("C16")),
    "ref_opt_solver_kw": ("closest.py", "problem.solve(solver=solver)", "opts = {} if solver is None else {\"solver\": solver}\n    problem.solve(**opts)", None),
    "ref_opt_tol": (K, "shape.contains(points, tol=tol) for shape in self._shapes", "shape.contains(points, tol) for shape in self._shapes", None),
    "ref_opt_sphere": (E, "    A = cp.Variable((rank, rank), PSD=True)\n", "    if sphere:\n        A = cp.Variable(nonneg=True) * np.eye(rank)\n    else:\n        A = cp.Variable((rank, rank), PSD=True)\n", None),
    "ref_opt_body": ("rigidbody.py", "        shapes = [\n            shape.mbe(sphere=sphere, solver=solver) for shape in self.shapes\n        ]", "        shapes = []\n        opts = dict(sphere=sphere, solver=solver)\n        for shape in self.shapes:\n            shapes.append(shape.mbe(**opts))", None),
    "ref_opt_eps": ("constraint.py", "return [J == J.T, J >> eps * np.eye(4)]", "return [J == J.T, J - eps * np.eye(4) >> 0]", None),
    # --- C17
    "if_cyl_mbe": (Y, "def mbe(self, rcond=None, sphere=False, solver=None):\n        return self.mib().mbe(rcond=rcond, sphere=sphere, solver=solver)", "def mbe(self, sphere=False, solver=None):\n        return self.mib().mbe(sphere=sphere, solver=solver)", C("C17")),
    "if_order": (K, "def mbe(self, rcond=None, sphere=False, solver=None):", "def mbe(self, sphere=False, rcond=None, solver=None):", C("C17")),
    "if_tol": (Y, "def is_same(self, other, tol=1e-8):", "def is_same(self, other, *, atol=1e-8):\n        tol = atol", C("C17")),
    "if_required": (K, "def must_contain(self, points, scale=1.0):", "def must_contain(self, points, scale):", C("C17")),
    "if_rename": ("closest.py", "constraints = shape1.must_contain(p1) + shape2.must_contain(p2)", "constraints = shape1.must_contain(points=p1) + shape2.must_contain(point=p2)", C("C17")),
    "if_missing": (K, "    def is_same(self, other, tol=1e-8):", "    def same_as(self, other, tol=1e-8):", C("C17")),
    "if_script_fn": ("/scripts/experiments/generate_drip_data.py", "D = rg.unvech(Dvec)", "D = rg.unvec(Dvec)", C("C17")),
    "if_script_kw": ("/scripts/examples/ellipsoid_sampling.py", "ell.random_points_on_surface(shape=N, rng=rng)", "ell.random_points_on_surface(size=N, rng=rng)", C("C17")),
    "if_script_attr": ("/scripts/examples/box_shell_inertia_monte_carlo.py", "box.hollow_density_params(mass=1.0).I", "box.hollow_density_params(mass=1.0).inertia", C("C17")),
    "if_lib_rename_for_script": (Y, "def moment_custom_vertex_constraints(self, param_var, eps=0):", "def moment_disk_constraints(self, param_var, eps=0):", C("C17")),
    "if_drip_d": (B, "def moment_custom_vertex_constraints(self, param_var, eps=0):", "def moment_custom_vertex_constraints(self, param_var, eps):", C("C17")),
    "if_err_path": ("random.py", "raise ValueError(", "raise ValueErr(", C("C17")),
    "if_cold_name": ("random.py", "raise ValueError(", "raise ValueError(max_trys, ", C("C17")),
    "ref_if_kwargs": (Y, "def mbe(self, rcond=None, sphere=False, solver=None):\n        return self.mib().mbe(rcond=rcond, sphere=sphere, solver=solver)", "def mbe(self, *args, **kwargs):\n        return self.mib().mbe(*args, **kwargs)", None),
    "ref_if_extra": (K, "def is_same(self, other, tol=1e-8):", "def is_same(self, other, tol=1e-8, verbose=False):", None),
    "ref_if_alias": (Y, "    def endpoints(self):", "    def ends(self):\n        return self.endpoints()\n\n    def endpoints(self):", None),
    "ref_if_script": ("/scripts/examples/ellipsoid_sampling.py", "    points = ell.random_points(shape=N, rng=rng)", "    sample = ell.random_points\n    options = {\"shape\": N, \"rng\": rng}\n    points = sample(**options)", None),
    # --- C18
    "inv_box_finite": (B, "        assert np.all(np.isfinite(self.half_extents))\n", "", C("C18")),
    "inv_ell_strict": (E, "assert np.all(np.isfinite(self.half_extents)), ", "assert np.any(np.isfinite(self.half_extents)), ", C("C18")),
    "inv_cyl_zero": (Y, "        assert length >= 0\n", "        assert length > 0\n", C("C18")),
    "inv_mass_zero": ("inertial.py", "assert mass >= 0, f", "assert mass > 0, f", C("C18")),
    "inv_masses_any": ("inertial.py", "assert np.all(masses >= 0)", "assert np.sum(masses) >= 0", C("C18")),
    "inv_com_h": ("inertial.py", "if h is not None and com is not None:", "if np.any(h) and np.any(com):", C("C18")),
    "inv_simplex": (P, "assert np.all(extents > 0)", "assert np.all(extents >= 0)", C("C18")),
    "inv_step": ("util.py", "    assert step > 0\n", "", C("C18")),
    "inv_grid": ("shape/base.py", "assert n > 0", "assert n >= 0", None),
    "inv_boxgrid": (B, "assert np.all(np.array(n) > 0)", "assert np.any(np.array(n) > 0)", C("C18")),
    "inv_transform": ("util.py", "assert translation.shape == (dim,)", "assert translation.size == dim", C("C18")),
    "inv_eps": ("constraint.py", "    assert J.shape == (4, 4)\n    assert eps >= 0\n", "    assert J.shape == (4, 4)\n", C("C18")),
    "inv_bounded": (P, "if not span_form.bounded():", "if span_form.vertices is None:", C("C18")),
    "ref_inv_raise": (B, "        assert np.all(self.half_extents >= 0)\n", "        if not (self.half_extents >= 0).all():\n            raise ValueError(\"negative\")\n", None),
    "ref_inv_min": (E, "assert np.all(np.isfinite(self.half_extents)), ", "assert not np.any(np.isinf(self.half_extents)) and not np.any(np.isnan(self.half_extents)), ", None),
    "ref_inv_ndim": ("util.py", "    assert v.shape == (3,)\n", "    v = np.asarray(v)\n    assert v.ndim == 1 and v.size == 3\n", None),
    # --- C19
    "un_vol": (Y, "return np.pi * self.radius**2 * self.length", "return np.pi * self.radius**2 * (self.length + self.length**0)", C("C19")),
    "un_ends": (Y, "return np.array([h, -h]) + self.center", "return np.array([h, -h]) / max(self.length, 1.0) * self.length + self.center", C("C19")),
    "un_edges": (B, "pvals = np.array([x, x, x, x, y, y, y, y, z, z, z, z]) / L\n", "pvals = np.array([x, x, x, x, y, y, y, y, z, z, z, z]) / (L + (L == 0))\n", None),
    "un_edges2": (B, "L = 4 * (x + y + z)\n        pvals = np.array([x, x, x, x, y, y, y, y, z, z, z, z]) / L", "x2, y2, z2 = x * x, y * y, z * z\n        L = 4 * (x + y + z)\n        pvals = np.array([x2, x2, x2, x2, y2, y2, y2, y2, z2, z2, z2, z2]) / L", C("C19")),
    "un_cyl": (Y, "Hz = mass * self.length**2 / 12.0", "Hz = mass * (self.length**2 if self.length > 1e-3 else self.length) / 12.0", C("C19")),
    "un_flat": (E, "return self.rank < self.dim", "return self.rank < self.dim or self.volume < 1e-2", C("C19")),
    "un_wire": (B, "Hzz = z**2 * (x + y + z / 3) / d", "Hzz = z**2 * (x + y + z**2 / 3) / d", C("C19")),
    "un_full": (K, "return self.inner_length + 2 * self.radius", "return self.inner_length + 2 * self.radius * self.radius", C("C19")),
    "un_H": ("inertial.py", "H = H + mass * np.outer(com, com)", "H = H + np.outer(com, com)", C("C19")),
    "un_Hc": ("inertial.py", "return self.H - self.mass * np.outer(self.com, self.com)", "return self.H - self.mass * np.outer(self.h, self.com)", C("C19")),
    "un_bw": ("inertial.py", "S = skew3(self.h)", "S = skew3(self.com)", C("C19")),
    "un_poly0": (Y, "\"000\": self.radius**2}", "\"000\": self.radius}", C("C19")),
    "ref_un_norm": (Y, "h = 0.5 * self.length * self.longitudinal_axis", "s = max(self.length, self.radius)\n        h = 0.5 * (self.length / s) * self.longitudinal_axis * s if s > 0 else np.zeros(3)", None),
    "ref_un_tol": (Y, "P1 = points @ self.longitudinal_axis[:, None]\n        P2 = points @ self.transverse_axes\n        return np.all(", "tol = tol + 1e-14\n        P1 = points @ self.longitudinal_axis[:, None]\n        P2 = points @ self.transverse_axes\n        return np.all(", None),
    # --- C20
    "opt_maxdet": (E, "cp.Minimize(-cp.log_det(S))", "cp.Minimize(cp.log_det(S))", C("C20", "C11")),
    "opt_sph_drop": (E, "constraints.append(S == a * np.eye(dim))", "constraints.append(S[0, 0] == a[0])", C("C20", "C16")),
    "opt_pts_first": (E, "[cp.norm2(A @ x + b) <= 1 for x in P]", "[cp.norm2(A @ x + b) <= 1 for x in P[1:]]", C("C20")),
    "opt_pts_bound": (E, "[cp.norm2(A @ x + b) <= 1 for x in P]", "[cp.norm2(A @ x + b) <= rank for x in P]", C("C20")),
    "opt_pts_center": (E, "np.linalg.lstsq(A.value, -b.value, rcond=rcond)[0] + r", "np.linalg.lstsq(A.value, -b.value, rcond=rcond)[0]", C("C20")),
    "opt_pts_sqrt": (E, "half_extents[nz] = 1.0 / eigs[nz]", "half_extents[nz] = 1.0 / np.sqrt(eigs[nz])", C("C20")),
    "opt_pts_rot": (E, "rotation = np.hstack((R @ V, N))\n    # if", "rotation = np.hstack((R, N))\n    # if", C("C20")),
    "opt_pts_null": (E, "N = null_space((R @ V).T, rcond=rcond)\n    rotation = np.hstack((R @ V, N))\n    # if", "N = null_space((R @ V).T, rcond=rcond)\n    rotation = np.hstack((N, R @ V))\n    # if", C("C20")),
    "opt_mie_max": (E, "cp.Maximize(cp.log_det(B))", "cp.Minimize(-cp.log_det(B))", None),
    "opt_mie_E": (E, "E = B.value @ B.value\n", "E = B.value\n", C("C20", "C19")),
    "opt_mie_norm1": (E, "cp.norm2(B @ A[i, :]) + A[i, :] @ c", "cp.norm1(B @ A[i, :]) + A[i, :] @ c", C("C20")),
    "opt_mie_face": (E, "for i in range(n)\n", "for i in range(max(dim, n - 1))\n", C("C20")),
    "opt_mie_center": (P, "center = R @ ell.center + r\n", "center = R @ ell.center + self.center\n", C("C20")),
    "opt_mie_rot": (P, "rotation = np.hstack((R @ ell.rotation, N))", "rotation = np.hstack((R @ ell.rotation.T, N))", C("C20")),
    "opt_mie_ext": (P, "half_extents[:rank] = ell.half_extents", "half_extents[:rank] = np.sort(ell.half_extents)", C("C20")),
    "opt_ell_ts": (E, "constraints = [ts >= 0] + [", "constraints = [ts <= 0] + [", C("C20")),
    "opt_ell_shared": (E, "_mbee_con_mat(S, d, E, ti) << 0 for E, ti in zip(ellipsoids, ts)", "_mbee_con_mat(S, d, E, ts[0]) << 0 for E in ellipsoids", C("C20")),
    "opt_ell_f": (E, "f = cp.reshape(-1 - ti * ci, (1, 1)", "f = cp.reshape(-1 - ci, (1, 1)", C("C20", "C19")),
    "opt_ell_bi": (E, "    bi = ellipsoid.A @ ellipsoid.b\n    ci", "    bi = ellipsoid.b\n    ci", C("C20", "C19")),
    "opt_ell_first": (E, "for E, ti in zip(ellipsoids, ts)\n", "for E, ti in zip(ellipsoids[1:], ts)\n", C("C20")),
    "opt_ell_solve": (E, "center = np.linalg.solve(S.value, -d.value)", "center = np.linalg.solve(S.value, d.value)", C("C20")),
    "opt_aff": (E, "S = A.T @ A\n", "S = A\n", C("C20")),
    "opt_aff_c": (E, "center = np.linalg.lstsq(A, -b, rcond=rcond)[0]\n        return", "center = np.linalg.lstsq(S, -b, rcond=rcond)[0]\n        return", C("C20")),
    "opt_shape": (E, "half_extents_inv = np.sqrt(eigs)", "half_extents_inv = eigs", C("C20", "C19")),
    "opt_incl_swap": (E, "self.S - t * other.S", "other.S - t * self.S", C("C20")),
    "opt_incl_t": (E, "            t >= 0,\n            schur(", "            t >= 1,\n            schur(", C("C20")),
    "opt_incl_status": (E, 'return problem.status == "optimal"', 'return problem.status != "infeasible_inaccurate"', C("C20")),
    "opt_caps_one": (K, "mbe_of_ellipsoids(self.caps, sphere", "mbe_of_ellipsoids(self.caps[:1], sphere", C("C20")),
    "opt_poly_pts": (P, "        return mbe_of_points(\n            self.vertices, rcond", "        return mbe_of_points(\n            self.vertices - self.vertices.mean(axis=0), rcond", C("C20")),
    "ref_opt_sq": (E, "[cp.norm2(A @ x + b) <= 1 for x in P]", "[cp.sum_squares(A @ x + b) <= 1 for x in P]", None),
    "ref_opt_vec": (E, "[cp.norm2(A @ x + b) <= 1 for x in P]", "[cp.norm(P @ A + np.ones((P.shape[0], 1)) @ cp.reshape(b, (1, rank), order='C'), axis=1) <= 1]", None),
    "ref_opt_maxim": (E, "cp.Minimize(-cp.log_det(A))", "cp.Maximize(cp.log_det(A))", None),
    "ref_opt_sym": (E, "A = cp.Variable((rank, rank), PSD=True)", "A = cp.Variable((rank, rank), symmetric=True)", None),
    "ref_opt_sphvar": (E, "        a = cp.Variable(1)\n        constraints.append(A == a * np.eye(rank))", "        constraints += [A == cp.diag(cp.diag(A)), cp.diag(A) == A[0, 0]]", None),
    "ref_opt_inv": (E, "center = np.linalg.solve(S.value, -d.value)", "center = -np.linalg.inv(S.value) @ d.value", None),
    "ref_opt_neg": (E, "_mbee_con_mat(S, d, E, ti) << 0 for E, ti", "-_mbee_con_mat(S, d, E, ti) >> 0 for E, ti", None),
    # --- C21
    "same_ell_Q": (E, "        F1 = self.rotation @ np.diag(self.half_extents) @ self.rotation.T\n        F2 = other.rotation @ np.diag(other.half_extents) @ other.rotation.T\n", "        F1 = self.Q\n        F2 = other.Q\n", C("C21")),
    "same_ell_dim": (E, "if not isinstance(other, self.__class__) or other.dim != self.dim:", "if not isinstance(other, self.__class__):", C("C21")),
    "same_ell_norot": (E, "F2 = other.rotation @ np.diag(other.half_extents) @ other.rotation.T\n        return np", "F2 = self.rotation @ np.diag(other.half_extents) @ self.rotation.T\n        return np", C("C21")),
    "same_ell_E": (E, "        F1 = self.rotation @ np.diag(self.half_extents) @ self.rotation.T\n        F2 = other.rotation @ np.diag(other.half_extents) @ other.rotation.T\n", "        F1 = np.diag(self.half_extents)\n        F2 = np.diag(other.half_extents)\n", C("C21")),
    "same_poly_one": (P, "return self.contains_polyhedron(\n            other, tol=tol\n        ) and other.contains_polyhedron(self, tol=tol)", "return self.contains_polyhedron(other, tol=tol)", C("C21")),
    "same_poly_cls": (P, "if not isinstance(other, ConvexPolyhedron) or other.dim != self.dim:", "if not isinstance(other, self.__class__) or other.dim != self.dim:", C("C21")),
    "same_poly_dim": (P, "if not isinstance(other, ConvexPolyhedron) or other.dim != self.dim:", "if not isinstance(other, ConvexPolyhedron):", C("C21")),
    "same_cyl_noctr": (Y, "            and np.allclose(self.center, other.center, atol=tol)\n", "", C("C21")),
    "same_cyl_vol": (Y, "            np.isclose(self.length, other.length, atol=tol)\n            and", "            np.isclose(self.volume, other.volume, atol=tol)\n            and", C("C21")),
    "same_cap_inner": (K, "return self.cylinder.is_same(other.cylinder, tol=tol)", "return self.mbb().is_same(other.mbb(), tol=tol)", None),
    "same_cap_kind": (K, "        if not isinstance(other, self.__class__):\n            return False\n", "", C("C21")),
    "same_par_vec": ("inertial.py", "return np.allclose(self.J, other.J)", "return np.allclose(self.J, other.J) or np.allclose(self.vec[1:], other.vec[1:])", C("C21")),
    "flat_z": (E, "return np.isclose(self.half_extents, 0)\n\n    def _Q", "return np.isclose(self.half_extents, 0, atol=1e-6)\n\n    def _Q", C("C21")),
    "flat_zero": (E, "return np.isclose(self.half_extents, 0)\n\n    def _Q", "return self.half_extents == 0\n\n    def _Q", C("C21")),
    "flat_contains": (E, "        z = np.isclose(self.half_extents, 0)\n        nz = ~z\n        s = ", "        z = np.isclose(self.half_extents, 0, atol=tol)\n        nz = ~z\n        s = ", None),
    "flat_contains6": (E, "        z = np.isclose(self.half_extents, 0)\n        nz = ~z\n        s = ", "        z = np.isclose(self.half_extents, 0, atol=1e-6)\n        nz = ~z\n        s = ", C("C21")),
    "flat_surf": (E, "if np.isclose(self.half_extents, 0).any():", "if np.any(self.half_extents <= 0):", C("C21")),
    "flat_inv": (E, "def _inv_with_zeros(a, tol=1e-8):", "def _inv_with_zeros(a, tol=1e-12):", C("C21")),
    "flat_volume": (E, "return self.rank < self.dim", "return bool(np.isclose(self.volume, 0))", C("C21", "C19")),
    "flat_mc": (E, "c = schur(scale * E_diag, p, scale) >> 0", "c = schur(scale * np.eye(self.dim), self.half_extents_inv * p, scale) >> 0", C("C21")),
    "flat_QV": (E, "zero_mask = np.isclose(self.half_extents, 0)\n\n        # Q matrix", "zero_mask = np.isclose(self.half_extents, 0, atol=1e-10)\n\n        # Q matrix", C("C21")),
    "flat_vol": (E, "return unit_ball * np.prod(self.half_extents)", "return unit_ball / np.sqrt(np.linalg.det(self.S))", C("C21")),
    "flat_aabb": (E, "        v_max = self.center + np.sqrt(np.diag(self.E))\n        v_min = self.center - np.sqrt(np.diag(self.E))\n", "        w = np.sqrt(np.diag(np.linalg.inv(self.S)))\n        v_max = self.center + w\n        v_min = self.center - w\n", C("C21")),
    "ref_same_sq": (E, "        F1 = self.rotation @ np.diag(self.half_extents) @ self.rotation.T\n        F2 = other.rotation @ np.diag(other.half_extents) @ other.rotation.T\n", "        F1 = self.E\n        F2 = other.E\n", None),
    "ref_same_if": (Y, "        return (\n            np.isclose(self.length, other.length, atol=tol)\n            and np", "        if not np.isclose(other.length, self.length, atol=tol):\n            return False\n        return (\n            np", None),
    "ref_same_cap": (K, "        return self.cylinder.is_same(other.cylinder, tol=tol)", "        a, b = self.cylinder, other.cylinder\n        return all([np.allclose(getattr(a, k), getattr(b, k), atol=tol) for k in ('length', 'radius', 'center', 'rotation')])", None),
    "ref_same_poly": (P, "return self.contains_polyhedron(\n            other, tol=tol\n        ) and other.contains_polyhedron(self, tol=tol)", "return bool(np.all(self.contains(other.vertices, tol=tol)) & np.all(other.contains(self.vertices, tol=tol)))", None),
    "ref_flat_z": (E, "        z = np.isclose(self.half_extents, 0)\n        nz = ~z\n        s = ", "        z = self._z()\n        nz = np.logical_not(z)\n        s = ", None),
    "ref_flat_abs": (E, "return np.isclose(self.half_extents, 0)\n\n    def _Q", "return np.abs(self.half_extents) <= 1e-8\n\n    def _Q", None),
    "ref_flat_rank": (E, "return self.rank < self.dim", "return bool(np.any(self._z()))", None),
    # --- C22
    "rej_max_off": ("random.py", "if tries >= max_tries:", "if tries > max_tries:", C("C22")),
    "rej_count_fail": ("random.py", "        tries += 1\n", "", C("C22")),
    "rej_tries_late": ([("random.py", "        tries += 1\n\n", ""), ("random.py", "        m += n_new\n", "        m += n_new\n        tries += 1\n")], C("C22")),
    "rej_reset": ("random.py", "        m += n_new\n", "        m += n_new\n        tries = 0\n", C("C22")),
    "rej_err": ("random.py", "            raise ValueError(\n                \"Failed", "            raise RuntimeError(\n                \"Failed", C("C22")),
    "rej_break": ("random.py", "            raise ValueError(\n                \"Failed to generate enough points by rejection sampling.\"\n            )", "            break", C("C22")),
    "rej_over": ("random.py", "        m += n_new\n", "        m = n_new\n", C("C22")),
    "rej_slot": ("random.py", "points[m : m + n_new] = new_points", "points[m : m + n_new] = candidates[:n_new]", C("C22")),
    "rej_skip": ("random.py", "        m += n_new\n", "        m += max(n_new, 2)\n", C("C22")),
    "rej_all": ("random.py", "if not c.any():", "if not c.all():", C("C22")),
    "rej_xor": ("random.py", "        c = np.sum(\n            [s.contains(candidates) for s in actual_shapes], axis=0\n        ).astype(bool)", "        c = np.sum([s.contains(candidates) for s in actual_shapes], axis=0) == 1", C("C22")),
    "rej_surf_count": (E, "            count += n_acc\n", "            count += max(1, n_acc)\n", C("C22")),
    "rej_surf_slot": (E, "points[count : count + n_acc] = r[accept, :]", "points[count : count + n_acc] = r[:n_acc, :]", C("C22")),
    "rej_surf_if": (E, "        while count < n:\n", "        for _ in range(3):\n            if count >= n:\n                break\n", C("C22")),
    "rej_surf_not": (E, "accept = u <= g", "accept = u > g", C("C22")),
    "rej_surf_last": (E, "            n_acc = np.sum(accept)\n            points[count : count + n_acc] = r[accept, :]", "            n_acc = np.sum(accept)\n            points[-n_acc:] = r[accept, :]", C("C22")),
    "rej_surf_all": (E, "            n_acc = np.sum(accept)\n", "            accept &= np.all(accept)\n            n_acc = np.sum(accept)\n", C("C22")),
    "ref_rej_any": ("random.py", "        c = np.sum(\n            [s.contains(candidates) for s in actual_shapes], axis=0\n        ).astype(bool)", "        c = np.any([s.contains(candidates) for s in actual_shapes], axis=0)", None),
    "ref_rej_for": ([("random.py", "    tries = 0\n    while m < n:\n        # eventually error out if this is taking too long\n        if tries >= max_tries:\n            raise ValueError(\n                \"Failed to generate enough points by rejection sampling.\"\n            )\n        tries += 1\n", "    for _ in range(max_tries):\n        if m >= n:\n            break\n"), ("random.py", "    # back to original shape\n    if sample", "    if m < n:\n        raise ValueError(\"not enough points\")\n    # back to original shape\n    if sample")], None),
    "ref_rej_nz": (E, "            n_acc = np.sum(accept)\n            points[count : count + n_acc] = r[accept, :]", "            idx = np.flatnonzero(accept)\n            n_acc = len(idx)\n            points[count : count + n_acc] = r[idx]", None),
    "ref_rej_over": ("random.py", "        candidates = bounding_shape.random_points(n - m, rng=rng)", "        candidates = np.atleast_2d(bounding_shape.random_points(n - m, rng=rng))", None),
    # --- C23
    "cmp_union": ("closest.py", "    dist: float\n", "    dist: float | None\n", C("C23")),
    "cmp_generic": ("closest.py", "def closest_points(shape1, shape2, solver=None):", "def closest_points(shape1, shape2, solver: tuple[str] = None):", C("C23")),
    "cmp_slots": ("closest.py", "@dataclass\n", "@dataclass(slots=True)\n", C("C23")),
    "cmp_concat": ("inertial.py", "np.concatenate(", "np.concat(", C("C23")),
    "cmp_infty": ("shape/ellipsoid.py", "np.inf ", "np.infty ", C("C23")),
    "cmp_sympy": ("moment.py", "import math\n", "import math\nimport sympy\n", C("C23")),
    "cmp_match": ("spatial.py", "import numpy as np\n", "import numpy as np\n\n\ndef _k(x):\n    match x:\n        case 1:\n            return 2\n", C("C23")),
    "cmp_zip": (P, "import cvxpy as cp\n", "import cvxpy as cp\n_Z = list(zip([1], [2], strict=True))\n", C("C23")),
    "cmp_cache": ("moment.py", "import math\n", "import functools\nimport math\n\n_c = functools.cache(len)\n", C("C23")),
    "cmp_fstr": ("spatial.py", "import numpy as np\n", "import numpy as np\n_N = {'a': 1}\n_M = f'{_N['a']}'\n", C("C23")),
    "cmp_trapz": ("util.py", "import numpy as np\n", "import numpy as np\nfrom numpy import trapz\n", C("C23")),
    "cmp_pairwise": ("util.py", "import itertools\n", "import itertools\nfrom itertools import pairwise\n", C("C23")),
    "ref_cmp_future": ("closest.py", "    dist: float\n", "    dist: 'float | None'\n", None),
    "ref_cmp_try": ("util.py", "import numpy as np\n", "import numpy as np\ntry:\n    from itertools import pairwise\nexcept ImportError:\n    pairwise = None\n", None),
    # --- C11
    "dcp_norm_eq": (E, "constraints = [cp.norm2(A @ x + b) <= 1 for x in P]", "constraints = [cp.norm2(A @ x + b) == 1 for x in P]", C("C11", "C20")),
    "dcp_max": (E, "cp.Maximize(cp.log_det(B))", "cp.Maximize(-cp.log_det(B))", C("C11", "C20")),
    "dcp_gap": ("closest.py", "cp.Minimize(cp.norm2(p2 - p1))", "cp.Maximize(cp.norm2(p2 - p1))", C("C11", "C02")),
    "dcp_mass": (P, "h == ms.T @ self.vertices,", "h * cp.sum(ms) == m * (ms.T @ self.vertices),", C("C11")),
    "dcp_abs": (B, "cp.diag(H) <= cp.diag(Hv),", "cp.abs(cp.diag(H)) <= cp.abs(cp.diag(Hv)),", C("C11")),
    "dcp_com": (B, "m == mv,", "cp.inv_pos(m) == 1 / mv,", C("C11")),
    "dcp_distsq": ("closest.py", "cp.Minimize(cp.norm2(p2 - p1))", "cp.Minimize((p2 - p1) @ (p2 - p1))", C("C11")),
    "ref_dcp_norm": ("closest.py", "cp.Minimize(cp.norm2(p2 - p1))", "cp.Minimize(cp.norm(p1 - p2, 2))", None),
    "ref_dcp_abs": (B, "cp.diag(H) <= cp.diag(Hv),", "cp.diag(Hv) - cp.diag(H) >= 0,", None),
    "rz_psd_drop_body": ("rigidbody.py", "            + [J == cp.sum(Js)]\n            + psd_constraints\n", "            + [J == cp.sum(Js)]\n", C("C10")),
    "rz_tie_drop_body": ("rigidbody.py", "            + [J == cp.sum(Js)]\n", "", C("C10")),
    "rz_body_eps": ("rigidbody.py", "for c in moment_constraints(shape, J)\n", "for c in moment_constraints(shape, J, eps=eps)\n", C("C09", "C10")),
    "rz_body_skip": ("rigidbody.py", "for shape, J in zip(self.shapes, Js)", "for shape, J in zip(self.shapes[:-1], Js)", C("C10")),
    "rz_body_order": ("rigidbody.py", "for shape, J in zip(self.shapes, Js)", "for shape, J in zip(self.shapes, [J] * len(self.shapes))", C("C09", "C10")),
    "rz_body_noeps": ("rigidbody.py", "return moment_constraints(self.shapes[0], param_var, eps=eps)", "return moment_constraints(self.shapes[0], param_var)", C("C10")),
    "rz_eps_sign": ("constraint.py", "J >> eps * np.eye(4)]", "J >> -eps * np.eye(4)]", C("C10")),
    "rz_sym_drop": ("constraint.py", "return [J == J.T, J >> eps * np.eye(4)]", "return [J >> eps * np.eye(4)]", C("C10")),
    "rz_poly_loc": (P, "            + moment.localizing_constraints(M, polys=self._polys)\n", "            + moment.localizing_constraints(M, polys=self._polys[1:])\n", C("C10")),
    "rz_poly_tie_H": (P, "[m == M[0, 0], h == M[0, 1:4], H == M[1:4, 1:4]]", "[m == M[0, 0], h == M[0, 1:4]]", C("C10")),
    "rz_poly_tie_h": (P, "[m == M[0, 0], h == M[0, 1:4], H == M[1:4, 1:4]]", "[m == M[0, 0], h[:2] == M[0, 1:3], H == M[1:4, 1:4]]", C("C10")),
    "rz_poly_mom": (P, "            + moment.moment_constraints(M)\n", "", C("C10")),
    "rz_cyl_poly": ("shape/cylinder.py", 'Polynomial({"001": -1, "000": h}),', 'Polynomial({"001": -1, "000": h * 2}),', C("C10")),
    "rz_cyl_poly2": ("shape/cylinder.py", '"000": self.radius**2}', '"000": self.radius}', C("C09", "C10")),
    "rz_cyl_T": ("shape/cylinder.py", "m = J0[3, 3]\n        h = J0[:3, 3]", "m = J0[3, 3]\n        h = J[:3, 3]", C("C09")),
    "rz_cyl_cust": ("shape/cylinder.py", "H[1, 1] == J_sum[1, 1],\n", "", C("C10")),
    "rz_cyl_cust2": ("shape/cylinder.py", "H[2, 2] <= J_sum[2, 2],\n", "", C("C10")),
    "rz_cyl_cust3": ("shape/cylinder.py", "H[2, 2] <= J_sum[2, 2]", "H[2, 2] == J_sum[2, 2]", C("C09")),
    "rz_cyl_disk": ("shape/cylinder.py", "for J, disk in zip(Js, self.disk0s)", "for J, disk in zip(Js, self.disks)", C("C09", "C10")),
    "rz_box_diag": (B, "cp.diag(H) <= cp.diag(Hv),", "", C("C10")),
    "rz_box_m": (B, "            m == mv,\n", "", C("C10")),
    "rz_box_tri": (B, "cp.upper_tri(J0) == cp.upper_tri(Jv),", "cp.upper_tri(H) == cp.upper_tri(Hv),", C("C10")),
    "rz_box_world": (B, "cp.upper_tri(J0) == cp.upper_tri(Jv),", "cp.upper_tri(J) == cp.upper_tri(Jv),", C("C09")),
    "rz_vert_h": (P, "h == ms.T @ self.vertices,", "h[:2] == (ms.T @ self.vertices)[:2],", C("C10")),
    "rz_vert_eq": (P, "H << cp.sum([μ", "H == cp.sum([μ", C("C09")),
    "rz_vert_rev": (P, "H << cp.sum([μ", "H >> cp.sum([μ", C("C09", "C10")),
    "rz_loc_psd": ("moment.py", "L_var = cp.Variable(L_sym.shape, PSD=True)", "L_var = cp.Variable(L_sym.shape, symmetric=True)", C("C10")),
    "rz_loc_deg": ("moment.py", "            if deg % 2 == 0:\n                v = deg // 2\n            else:\n                v = (deg + 1) // 2\n\n            # compute the symbolic localizing matrix\n            L_sym", "            v = deg\n\n            # compute the symbolic localizing matrix\n            L_sym", C("C10")),
    "rz_mom_short": ("moment.py", "        constraints = []\n        for i in range(self.r):\n            for j in range(i, self.r):\n                sub", "        constraints = []\n        for i in range(self.n + 1):\n            for j in range(i, self.r):\n                sub", C("C10")),
    "rz_loc_ind": ("moment.py", "constraints.append(\n                    L_var[i, j] == ", "constraints.append(\n                    L_var[i, i] == ", C("C09", "C10")),
    "rz_ell_flat_tie": (E, "[cp.trace(Qr @ Jr) >= 0, J == V @ Jr @ V.T]", "[cp.trace(Qr @ Jr) >= 0, J[:3, 3] == (V @ Jr @ V.T)[:3, 3]]", C("C10")),
    "rz_ell_flat_tr": (E, "[cp.trace(Qr @ Jr) >= 0, J == V @ Jr @ V.T]", "[J == V @ Jr @ V.T]", C("C10")),
    "rz_ell_flat_V": (E, "V[:3, -1] = self.center\n", "", C("C09", "C10")),
    "rz_ell_flat_S": (E, "Sr = np.diag(self.half_extents_inv[~zero_mask] ** 2)", "Sr = np.diag(self.half_extents_inv[~zero_mask])", C("C09", "C10")),
    "rz_ell_noQ": (E, "return psd_constraints + [cp.trace(self.Q @ J) >= 0]", "return psd_constraints + [cp.trace(self.Q @ J) <= 0]", C("C09", "C10")),
    "rz_ell_dropconst": (E, "return psd_constraints + [cp.trace(self.Q @ J) >= 0]", "return psd_constraints[:1] + [cp.trace(self.Q @ J) >= 0]", C("C10")),
    "rz_ell_can": (E, "return np.trace(self.Q @ params.J) >= 0  # TODO", "return np.trace(self.Q @ params.J) > -1  # TODO", C("C10")),
    "rz_ell_can2": (E, "if not params.consistent(eps=eps):", "if not params.consistent():", C("C10")),
    "rz_ell_can3": (E, "return np.trace(Qnz @ params.J) >= 0 and np.isclose(np.trace(Qz @ params.J), 0)", "return np.trace(Qnz @ params.J) >= 0", C("C10")),
    "rz_cons_strict": ("inertial.py", "return np.min(np.linalg.eigvals(self.J)) >= eps", "return np.min(np.linalg.eigvals(self.J)) > eps", C("C09")),
    "rz_cons_max": ("inertial.py", "return np.min(np.linalg.eigvals(self.J)) >= eps", "return np.linalg.eigvalsh(self.J)[-1] >= eps", C("C10")),
    "rz_cons_H": ("inertial.py", "return np.min(np.linalg.eigvals(self.J)) >= eps", "return np.min(np.linalg.eigvals(self.H)) >= eps", C("C10")),
    "ref_rz_cons": ("inertial.py", "return np.min(np.linalg.eigvals(self.J)) >= eps", "return bool(np.all(np.linalg.eigvalsh(self.J) >= eps))", None),
    "ref_rz_cons2": ("inertial.py", "return np.min(np.linalg.eigvals(self.J)) >= eps", "return np.linalg.eigvalsh(self.J - eps * np.eye(4)).min() >= 0", None),
    "ref_rz_body": ("rigidbody.py", "            [\n                c\n                for shape, J in zip(self.shapes, Js)\n                for c in moment_constraints(shape, J)\n            ]\n            + [J == cp.sum(Js)]\n            + psd_constraints\n", "            psd_constraints\n            + [cp.sum(Js) - J == 0]\n            + sum([moment_constraints(self.shapes[i], Js[i]) for i in range(len(Js))], [])\n", None),
    "ref_rz_poly": (P, "[m == M[0, 0], h == M[0, 1:4], H == M[1:4, 1:4]]", "[M[0, 0] == m, M[1:4, 0] == h] + [M[i + 1, j + 1] == H[i, j] for i in range(3) for j in range(3)]", None),
    "ref_rz_vert": (P, "H << cp.sum([μ * V for μ, V in zip(ms, Vs)]),", "self.vertices.T @ cp.diag(ms) @ self.vertices - H >> 0,", None),
    "ref_rz_loc": ("moment.py", "            L_var = cp.Variable(L_sym.shape, PSD=True)\n", "            L_var = cp.Variable(L_sym.shape, symmetric=True)\n            constraints.append(L_var >> 0)\n", None),
    "ref_rz_psd": ("constraint.py", "return [J == J.T, J >> eps * np.eye(4)]", "return [J - eps * np.eye(4) >> 0, J - J.T == 0]", None),
    "ref_rz_cyl": ("shape/cylinder.py", "cp.upper_tri(J0) == cp.upper_tri(J_sum),\n                H[0, 0] == J_sum[0, 0],\n                H[1, 1] == J_sum[1, 1],\n", "cp.upper_tri(J_sum) == cp.upper_tri(J0),\n                cp.diag(H)[:2] == cp.diag(J_sum)[:2],\n", None),
    "ref_rz_boxdot": (B, "Jv = cp.sum([μ * np.outer(V, V) for μ, V in zip(μs, Vs)])", "Va = np.array(Vs)\n        Jv = Va.T @ cp.diag(μs) @ Va", None),

    "uni_ball_exp": ("random.py", "c ** (1.0 / dim) * s", "c ** (1.0 / (dim + 1)) * s", C("C24")),
    "uni_ball_sqrt": ("random.py", "c ** (1.0 / dim) * s", "np.sqrt(c) * s", C("C24")),
    "uni_ball_lin": ("random.py", "c ** (1.0 / dim) * s", "c * s", C("C24")),
    "uni_ball_shared": ("random.py", "c = np.expand_dims(rng.random(shape), axis=s.ndim - 1)", "c = rng.random()", C("C24")),
    "uni_sphere_cube": ("random.py", "X = rng.normal(size=full_shape)", "X = rng.uniform(-1, 1, size=full_shape)", C("C24")),
    "uni_sphere_scale": ("random.py", "X = rng.normal(size=full_shape)", "X = rng.normal(0.1, 1.0, size=full_shape)", C("C24")),
    "uni_sphere_abs": ("random.py", "X = rng.normal(size=full_shape)", "X = np.abs(rng.normal(size=full_shape))", C("C24")),
    "uni_box_low": (B, "points = rng.uniform(low=-1, high=1, size=(n, 3)) * self.half_extents\n        points = (self", "points = rng.uniform(low=-0.9, high=1, size=(n, 3)) * self.half_extents\n        points = (self", C("C24")),
    "uni_box_shared": (B, "points = rng.uniform(low=-1, high=1, size=(n, 3)) * self.half_extents\n        points = (self", "points = rng.uniform(low=-1, high=1, size=(n, 1)) * self.half_extents\n        points = (self", C("C24")),
    "uni_box_tri": (B, "points = rng.uniform(low=-1, high=1, size=(n, 3)) * self.half_extents\n        points = (self", "points = 0.5 * (rng.uniform(low=-1, high=1, size=(n, 3)) + rng.uniform(low=-1, high=1, size=(n, 3))) * self.half_extents\n        points = (self", C("C24")),
    "uni_face_area": (B, "Ay = 4 * x * z", "Ay = 4 * x * y", C("C24")),
    "uni_face_pv": (B, "pvals = np.array([Ax, Ax, Ay, Ay, Az, Az]) / A", "pvals = np.array([Ax, Ay, Az, Ax, Ay, Az]) / A", C("C24")),
    "uni_face_swap": (B, "points[idx[0] : idx[1], 0] = -x", "points[idx[0] : idx[1], 0] = x", C("C24")),
    "uni_face_even": (B, "pvals = np.array([Ax, Ax, Ay, Ay, Az, Az]) / A", "pvals = np.ones(6) / 6", C("C24")),
    "uni_face_shuffle": (B, "        rng.shuffle(points)\n\n        points = (self.rotation @ points.T).T + self.center\n        if shape == (1,):\n            return np.squeeze(points)\n        return points.reshape(shape + (3,))\n\n    def random_points_on_edges", "        points = (self.rotation @ points.T).T + self.center\n        if shape == (1,):\n            return np.squeeze(points)\n        return points.reshape(shape + (3,))\n\n    def random_points_on_edges", C("C24")),
    "uni_face_shuffle2": (B, "        rng.shuffle(points)\n\n        points = (self.rotation @ points.T).T + self.center\n        if shape == (1,):\n            return np.squeeze(points)\n        return points.reshape(shape + (3,))\n\n    def random_points_on_edges", "        rng.shuffle(points[1:])\n\n        points = (self.rotation @ points.T).T + self.center\n        if shape == (1,):\n            return np.squeeze(points)\n        return points.reshape(shape + (3,))\n\n    def random_points_on_edges", C("C24")),
    "uni_edge_pv": (B, "pvals = np.array([x, x, x, x, y, y, y, y, z, z, z, z]) / L", "pvals = np.array([x, y, z, x, y, z, x, y, z, x, y, z]) / L", C("C24")),
    "uni_edge_rng": (B, "points[: idx[4], 0] = x * rng.uniform(low=-1, high=1, size=idx[4])", "points[: idx[4], 0] = x * rng.uniform(low=0, high=1, size=idx[4])", C("C24")),
    "uni_edge_dup": (B, "enumerate([[x, y], [x, -y], [-x, -y], [-x, y]])", "enumerate([[x, y], [x, -y], [-x, -y], [x, y]])", C("C24")),
    "uni_cyl_dim": ("shape/cylinder.py", "self.radius * random_points_in_ball(shape=shape, dim=2, rng=rng)", "self.radius * random_points_in_ball(shape=shape, dim=3, rng=rng)[..., :2]", C("C24")),
    "uni_cyl_z": ("shape/cylinder.py", "rng.uniform(low=-0.5, high=0.5, size=shape)", "rng.uniform(low=-0.5, high=0.5)", C("C24")),
    "uni_ell_acc": (E, "d = 1.0 / self.half_extents**4", "d = 1.0 / self.half_extents**2", C("C24")),
    "uni_ell_max": (E, "m = np.min(self.half_extents)", "m = np.max(self.half_extents)", C("C24")),
    "uni_ell_g": (E, "g = m * np.sqrt(np.sum(r**2 * d, axis=1))", "g = m**2 * np.sum(r**2 * d, axis=1)", C("C24")),
    "uni_ell_all": (E, "accept = u <= g", "accept = np.ones(rem, dtype=bool)", C("C24")),
    "uni_ell_square": (E, "u = rng.random(rem)\n", "u = rng.random(rem) ** 2\n", C("C24")),
    "uni_caps_inner": (K, "bounding_shape=self.mbb()", "bounding_shape=self.cylinder", C("C24")),
    "uni_caps_inner2": (K, "bounding_shape=self.mbb()", "bounding_shape=self.cylinder.mbb()", C("C24")),
    "uni_caps_ell": (K, "bounding_shape=self.mbb()", "bounding_shape=self.mbb().mie()", C("C24")),
    "ref_uni_caps": (K, "bounding_shape=self.mbb()", "bounding_shape=self.aabb()", None),
    "ref_uni_ball": ("random.py", "c ** (1.0 / dim) * s", "(1 - c) ** (1.0 / dim) * s", None),
    "ref_uni_box": (B, "points = rng.uniform(low=-1, high=1, size=(n, 3)) * self.half_extents\n        points = (self", "points = (2 * rng.random((n, 3)) - 1) * self.half_extents\n        points = (self", None),
    "ref_uni_ell": (E, "accept = u <= g", "accept = ~(u > g)", None),
    "ref_uni_ell2": (E, "g = m * np.sqrt(np.sum(r**2 * d, axis=1))", "g = m * np.linalg.norm(p / self.half_extents, axis=1)", None),
    "ref_uni_face": (B, "        rng.shuffle(points)\n\n        points = (self.rotation @ points.T).T + self.center\n        if shape == (1,):\n            return np.squeeze(points)\n        return points.reshape(shape + (3,))\n\n    def random_points_on_edges", "        points = points[rng.permutation(n)]\n\n        points = (self.rotation @ points.T).T + self.center\n        if shape == (1,):\n            return np.squeeze(points)\n        return points.reshape(shape + (3,))\n\n    def random_points_on_edges", None),
    # --- sizes beyond the usual
    "big_contains": ("shape/base.py", "return self.contains(poly.vertices, tol=tol).all()", "return self.contains(poly.vertices[:12], tol=tol).all()", C("C01")),
    "big_must": (P, "return [self.A @ p <= scale * self.b for p in points]", "return [self.A @ p <= scale * self.b for i, p in enumerate(points) if i < 6]", C("C02")),
    "big_aabb": (P, "return Box.from_points_to_bound(self.vertices)", "n = min(len(self.vertices), 8)\n        return Box.from_points_to_bound(self.vertices[:n])", C("C05")),
    "big_masses": ("inertial.py", "J = sum([m * np.outer(p, p) for m, p in zip(masses, P)])", "J = sum([m * np.outer(p, p) for m, p in zip(masses[:10], P)])", C("C06")),
    "big_batch": (B, "points = (points - self.center) @ self.rotation\n        x_mask", "points = (points - self.center) @ (self.rotation if len(points) <= 5 else self.rotation.T)\n        x_mask", C("C01")),
    "big_list": (E, "points = np.asarray(points)\n        ndim = points.ndim\n        assert ndim <= 2, f\"points array must have at most 2 dims, but has {ndim}.\"\n        points = np.atleast_2d(points)\n\n        s = ", "ndim = np.ndim(points)\n        points = np.atleast_2d(points)\n        points = points if ndim == 1 or points.shape[0] != points.shape[1] else points.T\n\n        s = ", C("C01")),
}
