SU = 'pyspod/spod/utils.py'
PU = 'pyspod/pod/utils.py'
# C17
bad('C17', SU, "M = phir.conj().T @ (weights * phir)", "M = phir.T @ (weights * phir)")
bad('C17', SU, "Q = phir.conj().T @ (weights * data)", "Q = phir.conj().T @ data")
bad('C17', SU, "if (l[i] > tol * l_max):", "if (l[i] > tol):")
bad('C17', SU, "f_ub, f_idx_ub = post.find_nearest_freq(freq_req=1/T_lb, freq=freq)", "f_ub, f_idx_ub = post.find_nearest_freq(freq_req=1/T_ub, freq=freq)")
bad('C17', SU, "freq_idx = np.arange(f_idx_lb, f_idx_ub + 1)", "freq_idx = np.arange(f_idx_lb, f_idx_ub)")
bad('C17', SU, "jump_freq = n_modes_save * cnt_freq + i_mode", "jump_freq = n_freq * i_mode + cnt_freq")
bad('C17', SU, "for i_freq in freq_idx:", "for i_freq in sorted(freq_idx):")
bad('C17', SU, "lb = thres - i - 1", "lb = thres - i")
bad('C17', SU, "if (i < thres - 2):", "if (i < thres - 3):")
bad('C17', SU, "np.einsum('ij,kji->ik', x_tmp, p_tmp)", "np.einsum('ij,kji->ik', x_tmp, p_tmp.conj())")
bad('C17', SU, "lt_mean = np.mean(data, axis=0); data = data - lt_mean", "lt_mean = np.mean(data[:-1], axis=0); data = data - lt_mean")
bad('C17', SU, "params['freq_idx_ub'] = int(f_idx_ub)", "params['freq_idx_ub'] = int(n_freq_r)")
bad('C17', SU, "M_inv = (v.conj().T @ l_inv) @ u.conj().T", "M_inv = (v.conj().T @ l_inv) @ u.T")
bad('C17', 'pyspod/utils/postproc.py', "idx = (np.abs(freq - freq_req)).argmin()", "idx = np.searchsorted(freq, freq_req)")
ok('C17', SU, "        M_inv = np.linalg.pinv(M, tol)\n        coeffs = M_inv @ Q\n        del M_inv\n", "        coeffs = np.linalg.pinv(M, tol) @ Q\n")
ok('C17', SU, "    M = phir.conj().T @ (weights * phir)\n    Q = phir.conj().T @ (weights * data)\n", "    phiw = (weights * phir).conj().T if False else phir.conj().T * weights.T\n    M = phiw @ phir\n    Q = phiw @ data\n")
ok('C17', SU, "        for i_mode in range(n_modes_save):\n            jump_freq = n_modes_save * cnt_freq + i_mode\n            phir[:,jump_freq] = phi[:,i_mode]\n        cnt_freq = cnt_freq + 1\n", "        lo = n_modes_save * cnt_freq\n        phir[:,lo:lo+n_modes_save] = phi\n        cnt_freq += 1\n")
ok('C17', SU, "    cnt_freq = 0\n    for i_freq in freq_idx:\n", "    for cnt_freq, i_freq in enumerate(freq_idx):\n")
ok('C17', SU, "np.einsum('ij,kji->ik', x_tmp, p_tmp)", "np.einsum('kj,kjm->km', x_tmp, phir.conj())")
ok('C17', SU, "        for i in range(len(l)):\n            if (l[i] > tol * l_max):\n                l_inv[i,i] = 1 / l[i]\n", "        keep = l > tol * l_max\n        for i in range(len(l)):\n            if keep[i]: l_inv[i,i] = 1 / l[i]\n")
ok('C17', SU, "    lt_mean = np.mean(data, axis=0); data = data - lt_mean\n", "    lt_mean = data.mean(axis=0)\n    data = data - lt_mean[None,:]\n")
# C18
bad('C18', SU, "Q_rec = phir @ coeffs[:,time_idx]", "Q_rec = phir @ coeffs[:,:len(time_idx)]")
bad('C18', SU, "coeffs = np.einsum('ijk->ikj', coeffs)", "coeffs = np.einsum('ijk->kij', coeffs)")
bad('C18', SU, "time_idx = np.arange(0, nt, 2)", "time_idx = np.arange(1, nt, 2)")
bad('C18', SU, "Q_rec = np.moveaxis(Q_rec, -1, 0)", "Q_rec = np.swapaxes(Q_rec, -1, 0)")
bad('C18', PU, "Q_reconstructed = Q_reconstructed + lt_mean[...,None]", "pass")
bad('C18', PU, "time_idx.lower() == 'tenth': time_idx = np.arange(0, nt, 10)", "time_idx.lower() == 'tenth': time_idx = np.arange(0, nt, 100)")
bad('C18', PU, "    if coeffs is None:\n", "    if True:\n")
ok('C18', SU, "    Q_rec = phir @ coeffs[:,time_idx]\n    utils_par.pr0(f'- phi x a completed", "    sel = coeffs[:,time_idx]\n    Q_rec = np.matmul(phir, sel)\n    utils_par.pr0(f'- phi x a completed", 0)
ok('C18', SU, "coeffs = np.einsum('ijk->ikj', coeffs)", "coeffs = np.swapaxes(coeffs, 1, 2)")
ok('C18', SU, "Q_rec = np.moveaxis(Q_rec, -1, 0)", "Q_rec = np.rollaxis(Q_rec, -1)")
ok('C18', SU, "    elif isinstance(time_idx, list):\n        time_idx = time_idx\n    else:\n", "    elif not isinstance(time_idx, list):\n")
ok('C18', PU, "Q_reconstructed = Q_reconstructed + lt_mean[...,None]", "Q_reconstructed += lt_mean[...,np.newaxis]")
ok('C18', SU, "        if   time_idx.lower() == 'all'      : time_idx = np.arange(0, nt)\n        elif time_idx.lower() == 'half'     : time_idx = np.arange(0, nt, 2)\n        elif time_idx.lower() == 'quarter'  : time_idx = np.arange(0, nt, 4)\n        elif time_idx.lower() == 'tenth'    : time_idx = np.arange(0, nt, 10)\n        elif time_idx.lower() == 'hundredth': time_idx = np.arange(0, nt, 100)\n", "        steps = {'all': 1, 'half': 2, 'quarter': 4, 'tenth': 10, 'hundredth': 100}\n        time_idx = np.arange(0, nt, steps[time_idx.lower()])\n")
# C04
SS, ST, SB, PA, WE = 'pyspod/spod/standard.py', 'pyspod/spod/streaming.py', 'pyspod/spod/base.py', 'pyspod/utils/parallel.py', 'pyspod/utils/weights.py'
bad('C04', SS, "        M = utils_par.allreduce(data=M, comm=self._comm)\n", "")
bad('C04', SS, "            Q_hat_f = Q_hats[f]\n", "            Q_hat_f = np.squeeze(Q_hats[f])\n")
bad('C04', ST, "                        Ux = utils_par.allreduce(Ux, comm=self._comm)\n", "")
bad('C04', ST, "                        abs_up = utils_par.allreduce(abs_up, comm=self._comm)\n                        abs_up = np.sqrt(abs_up)\n", "                        abs_up = np.sqrt(abs_up)\n                        abs_up = utils_par.allreduce(abs_up, comm=self._comm)\n")
bad('C04', SU, "    Q = utils_par.allreduce(data=Q, comm=comm)\n    coeffs = np.zeros", "    coeffs = np.zeros")
bad('C04', SU, "    coeffs = utils_par.allreduce(data=coeffs, comm=comm)\n    utils_par.pr0(f'- calculation expansion coeffs done", "    utils_par.pr0(f'- calculation expansion coeffs done")
bad('C04', 'pyspod/pod/standard.py', "        Q = utils_par.allreduce(Q, comm=self._comm)\n", "        Q = utils_par.allreduce(Q / self._comm.size if self._comm else Q, comm=self._comm)\n")
bad('C04', PA, "        v = (na*va + nb*vb + na*nb*np.abs(ma-mb)**2/n)/n\n", "        v = (na*va + nb*vb)/n\n")
bad('C04', PA, "    n = np.size(data)\n    m =", "    n = data.shape[0]\n    m =")
bad('C04', SB, "utils_par.npy_save(self._comm, path_weights, self._weights, axis=md)", "utils_par.npy_save(self._comm, path_weights, self._weights, axis=0)")
bad('C04', SB, "        if self._rank == 0:\n            ## save dictionaries of modes", "        if self._rank == 1 or not self._comm:\n            ## save dictionaries of modes")
bad('C04', PA, "size)\n    n = q + (1 if r > rank else 0)\n", "size)\n    n = q + (1 if r >= rank else 0)\n")
ok('C04', PA, "        comm.Allreduce(data, data_reduced, op=MPI.SUM)\n", "        comm.Allreduce(sendbuf=data, recvbuf=data_reduced, op=MPI.SUM)\n")
ok('C04', PA, "size)\n    n = q + (1 if r > rank else 0)\n", "size)\n    n = q\n    if rank < r:\n        n += 1\n")
ok('C04', SS, "        M = utils_par.allreduce(data=M, comm=self._comm)\n", "        if self._comm:\n            M = utils_par.allreduce(data=M, comm=self._comm)\n")
ok('C04', SU, "    M = utils_par.allreduce(data=M, comm=comm)\n    Q = utils_par.allreduce(data=Q, comm=comm)\n    coeffs = np.zeros", "    Q = utils_par.allreduce(data=Q, comm=comm)\n    M = utils_par.allreduce(data=M, comm=comm)\n    coeffs = np.zeros")
ok('C04', ST, "                        abs_up = np.matmul(u_p.conj().T, u_p)\n", "                        abs_up = u_p.conj().T @ u_p\n")

# C32
bad('C32', WE, "                var, _, _ = utils_par.pvar(data[...,i], comm=comm)\n                weights[...,i] = weights[...,i] / var\n", "                var, _, _ = utils_par.pvar(data[...,i], comm=comm)\n                weights[...,i] = weights[...,i] / np.sqrt(var)\n")
bad('C32', WE, "                var = np.nanvar(data[...,i], axis=axis)\n", "                var = np.nanvar(data, axis=None)\n")
bad('C32', WE, "                var = np.nanvar(data[...,i], axis=axis)\n", "                var = np.nanvar(data[...,i], axis=axis, ddof=1)\n")
bad('C32', PA, "    d = np.abs(data - m)\n    d *= d\n", "    d = data - m\n    d *= d\n")
bad('C32', PA, "        m = (na*ma + nb*mb)/n\n", "        m = (ma + mb)/2\n")
bad('C32', PA, "na*nb*np.abs(ma-mb)**2/n)/n", "na*nb*(ma-mb)**2/n)/n")
bad('C32', SB, "            self._weights = np.ones(self._xshape+(self._nv,))\n", "            self._weights = np.ones(self._xshape+(self._nv,)) / self.nx\n")
bad('C32', WE, "        if method.lower() == 'variance':\n            if comm.rank == 0:\n", "        if method.lower() == 'var':\n            if comm.rank == 0:\n")
ok('C32', WE, "                var = np.nanvar(data[...,i], axis=axis)\n", "                x = data[...,i]\n                var = np.mean(np.abs(x - np.mean(x))**2)\n")
ok('C32', WE, "                weights[...,i] = weights[...,i] / var\n        else:\n            if comm.rank", "                weights[...,i] /= var\n        else:\n            if comm.rank")
ok('C32', PA, "        v = (na*va + nb*vb + na*nb*np.abs(ma-mb)**2/n)/n\n", "        v = (na*(va + np.abs(ma - m)**2) + nb*(vb + np.abs(mb - m)**2))/n\n")
ok('C32', PA, "        if n == 0:\n            return a\n        m =", "        if na == 0:\n            return b\n        m =")
ok('C32', PA, "    d = np.abs(data - m)\n    d *= d\n    v = np.sum(d)/n if n > 0 else 0.\n", "    v = np.sum(np.abs(data - m)**2)/n if n > 0 else 0.\n")

# C03
bad('C03', PA, "        shape = array.shape\n        lcount =", "        shape = array.shape\n        if shape[axis] == 0:\n            return\n        lcount =")
bad('C03', PA, "        file.Sync()\n        file.Close()\n", "        if comm.Get_rank() == 0:\n            file.Sync()\n        file.Close()\n")
bad('C03', PA, "        offset = np.array(offset, dtype=np.int64)\n        comm.Bcast(offset, root=0)\n", "            offset = np.array(offset, dtype=np.int64)\n            comm.Bcast(offset, root=0)\n")
bad('C03', SS, "        M = utils_par.allreduce(data=M, comm=self._comm)\n", "        if np.any(M):\n            M = utils_par.allreduce(data=M, comm=self._comm)\n")
bad('C03', SB, "            utils_par.npy_save(self._comm, path_weights, self._weights, axis=md)\n" if False else "        utils_par.npy_save(self._comm, path_weights, self._weights, axis=md)\n", "        if self._rank == 0: utils_par.npy_save(self._comm, path_weights, self._weights, axis=md)\n")
bad('C03', SU, "    del weights, data, phir\n    M = utils_par.allreduce(data=M, comm=comm)\n", "    n_loc = phir.shape[0]\n    del weights, data, phir\n    if n_loc > 0: M = utils_par.allreduce(data=M, comm=comm)\n")
bad('C03', ST, "                        abs_up = utils_par.allreduce(abs_up, comm=self._comm)\n", "                        if abs_up > 0:\n                            abs_up = utils_par.allreduce(abs_up, comm=self._comm)\n")
bad('C03', SS, "            for ipass in range(0,math.ceil(total_files/comm.size)):\n", "            phi0_max = comm.allreduce(phi0_max, op=MPI.MAX) if phi_dict[0][0].shape[0] < phi0_max else phi0_max\n            for ipass in range(0,math.ceil(total_files/comm.size)):\n")
bad('C03', 'pyspod/utils/reader.py', "        max_dist_time = comm.allreduce(n_dist_time, op=MPI.MAX)\n", "        max_dist_time = comm.allreduce(n_dist_time, op=MPI.MAX) if n_dist_time else 0\n")
bad('C03', 'pyspod/utils/reader.py', "root=irank))", "root=mpi_rank))")
bad('C03', PA, "def barrier(comm):\n    if comm is not None:\n", "def barrier(comm):\n    if comm is not None and comm.rank:\n")
bad('C03', 'pyspod/pod/standard.py', "        Q = utils_par.allreduce(Q, comm=self._comm)\n", "        if np.abs(Q).max() > 1e-30: Q = utils_par.allreduce(Q, comm=self._comm)\n")
bad('C03', PA, "        Q = 0" if False else "        comm.Scan(lcount, gdispl, op=MPI.SUM)\n", "        if lcount > 0: comm.Scan(lcount, gdispl, op=MPI.SUM)\n")
ok('C03', SS, "        M = utils_par.allreduce(data=M, comm=self._comm)\n", "        if self._comm is not None and self._comm.size > 1:\n            M = utils_par.allreduce(data=M, comm=self._comm)\n")
ok('C03', PA, "        comm.Bcast(offset, root=0)\n", "        offset = np.array(comm.bcast(int(offset), root=0), dtype=np.int64)\n")
ok('C03', SU, "    del weights, data, phir\n    M = utils_par.allreduce(data=M, comm=comm)\n", "    n_red = phir.shape[1]\n    del weights, data, phir\n    if n_red > 0: M = utils_par.allreduce(data=M, comm=comm)\n")
ok('C03', PA, "        file.Sync()\n        file.Close()\n", "        file.Sync()\n        if comm.Get_rank() == 0: written = True\n        file.Close()\n")

# C05
bad('C05', SU, "    if rank == 0: np.save(file_coeffs, coeffs)\n", "    np.save(file_coeffs, coeffs)\n")
bad('C05', SB, "        if self._rank == 0:\n            if not os.path.exists(self._modes_dir):\n                os.makedirs(self._modes_dir)\n", "        if not os.path.exists(self._modes_dir):\n            os.makedirs(self._modes_dir)\n")
bad('C05', SB, "        if self._rank == 0:\n            ## save dictionaries", "        if self._rank >= 0:\n            ## save dictionaries")
bad('C05', SS, "                    if rank == writer:\n", "                    if rank >= writer:\n")
bad('C05', 'pyspod/pod/utils.py', "    if rank == 0:\n        with open(path_params_coeffs", "    if rank <= 1:\n        with open(path_params_coeffs")
bad('C05', SS, "f'freq_idx_f{f:08d}_m{m:08d}.npy'\n                    print", "f'freq_idx_f{f:08d}.npy'\n                    print")
bad('C05', 'pyspod/pod/utils.py', "    utils_par.barrier(comm)\n\n    # save coefficients", "    if not os.path.exists(coeffs_dir): os.makedirs(coeffs_dir)\n    utils_par.barrier(comm)\n\n    # save coefficients") 
ok('C05', SS, "                    writer = i % comm.size\n", "                    writer = i - write_s\n")
ok('C05', SB, "            if not os.path.exists(self._modes_dir):\n                os.makedirs(self._modes_dir)\n", "            os.makedirs(self._modes_dir, exist_ok=True)\n")
ok('C05', SB, "        if self._rank == 0:\n            if not os.path.exists(self._modes_dir):\n                os.makedirs(self._modes_dir)\n", "        os.makedirs(self._modes_dir, exist_ok=True)\n")
ok('C05', 'pyspod/pod/utils.py', "    if rank == 0: np.save(file_coeffs, coeffs)\n", "    root = comm.size-1 if comm is not None else 0\n    if rank == root: np.save(file_coeffs, coeffs)\n")
ok('C05', SB, "        if self._rank == 0:\n            ## save dictionaries", "        if not self._rank:\n            ## save dictionaries")

# C06
PBA = 'pyspod/pod/base.py'
PUT = 'pyspod/pod/utils.py'
bad('C06', PUT, "        with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)\n", "        with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)\n    comm = None\n")
bad('C06', PA, "def barrier(comm):\n    if comm is not None:\n        comm.Barrier()\n", "def barrier(comm):\n    if comm is not None:\n        comm.bcast(None, root=0)\n")
bad('C06', PBA, "        self._n_modes = self._eigs.shape[-1]\n        utils_par.barrier(self._comm)\n", "        self._n_modes = self._eigs.shape[-1]\n")
bad('C06', SU, "        if not os.path.exists(coeffs_dir): os.makedirs(coeffs_dir)\n    if comm: comm.Barrier()\n", "        if not os.path.exists(coeffs_dir): os.makedirs(coeffs_dir)\n")
bad('C06', SU, "    utils_par.pr0(f'Coefficients saved in folder: {file_coeffs}', comm)\n    utils_par.pr0(f'Elapsed time: {time.time() - s0} s.'        , comm)\n    utils_par.barrier(comm)\n", "    utils_par.pr0(f'Coefficients saved in folder: {file_coeffs}', comm)\n    utils_par.pr0(f'Elapsed time: {time.time() - s0} s.'        , comm)\n")
ok('C06', SU, "    if comm: comm.Barrier()\n", "    if comm is not None: comm.allreduce(0)\n")
ok('C06', SU, "    utils_par.barrier(comm)\n", "")
ok('C06', PBA, "        self._n_modes = self._eigs.shape[-1]\n        utils_par.barrier(self._comm)\n", "        utils_par.barrier(self._comm)\n        self._n_modes = self._eigs.shape[-1]\n")

# C19
bad('C19', SB, "        self._params = dict(params)\n", "        self._params = params\n")
bad('C19', WE, "    weights = np.array(weights)\n", "    weights = np.asarray(weights)\n")
bad('C19', PUT, "    data = _set_dtype(data, dtype)\n    phir", "    data -= np.mean(data, axis=0); data = _set_dtype(data, dtype)\n    phir")
bad('C19', PUT, "    phir = _set_dtype(phir, dtype)\n", "    phir[...] = _set_dtype(phir, dtype)\n")
bad('C19', SU, "    nt     = data.shape[0]\n", "    nt     = data.shape[0]\n    data.shape = (nt, -1)\n")
bad('C19', SU, "        time_idx = time_idx\n", "        time_idx.sort()\n")
bad('C19', PBA, "        self._params = dict(params)\n", "        self._params = params\n")
bad('C19', SU, "    file_coeffs = os.path.join(coeffs_dir, 'coeffs.npy')\n    if rank == 0: np.save(file_coeffs, coeffs)\n", "    file_coeffs = os.path.join(results_dir, 'weights.npy')\n    if rank == 0: np.save(file_coeffs, coeffs)\n")
bad('C19', SU, "    data = _set_dtype(data, dtype)\n    weights = _set_dtype(weights, dtype)\n", "    data = _set_dtype(data, dtype)\n    weights *= 1.0 / np.sum(weights); weights = _set_dtype(weights, dtype)\n")
bad('C19', SU, "        d = d.astype(dt_float)\n" if False else "    ## initialize frequencies\n", "    if freq_idx is not None: freq_idx.sort()\n    ## initialize frequencies\n")
ok('C19', SS, "            Q_blk = self.data[start:end,...].copy()\n", "            Q_blk = np.array(self.data[start:end,...])\n")
ok('C19', SS, "        Q_blk *= self._window\n", "        Q_blk = Q_blk * self._window\n")
ok('C19', PUT, "    lt_mean = np.mean(data, axis=0); data = data - lt_mean\n", "    data = np.array(data); lt_mean = np.mean(data, axis=0); data -= lt_mean\n")
ok('C19', PUT, "    lt_mean = np.mean(data, axis=0); data = data - lt_mean\n", "    lt_mean = np.mean(data, axis=0); data -= lt_mean\n")
ok('C19', SB, "        self._params = dict(params)\n", "        self._params = {**params}\n")

# C34
PST = 'pyspod/pod/standard.py'
bad('C34', PST, "(d * self._weights)", "d")
bad('C34', PST, "[::-1]", "")
bad('C34', PST, "v = v[:,idx]", "v = v[idx,:]")
bad('C34', PST, "w = w[idx]; v = v[:,idx]", "v = v[:,idx]; w = np.sort(np.real(w))")
bad('C34', PBA, "            ub = lb + split_block\n", "            ub = lb + split_block - 1\n")
bad('C34', PBA, "        if split_res > 0:\n", "        if split_res > 1:\n")
bad('C34', PBA, "            tmp_nt += d.shape[0]\n", "            tmp_nt = d.shape[0]\n")
bad('C34', PBA, "        if self._n_modes_save > self._nt: self._n_modes_save = self._nt\n", "")
bad('C34', PUT, "(weights * np.transpose(data))", "np.transpose(data)")
bad('C34', PUT, "    lt_mean = np.mean(data, axis=0); data = data - lt_mean\n", "    lt_mean = np.mean(data[:-1], axis=0); data = data - lt_mean\n")
bad('C34', PST, "/ np.sqrt(w[:])", "/ w[:]")
bad('C34', PBA, "data[tmp_nt:tmp_nt+d.shape[0],...] = d", "data[i*d.shape[0]:(i+1)*d.shape[0],...] = d")
ok('C34', PST, "        w, v = scipy.linalg.eig(Q)\n        idx = np.argsort(np.real(w))[::-1]\n        w = w[idx]; v = v[:,idx]\n", "        w, v = scipy.linalg.eigh(Q)\n        w = w[::-1]; v = v[:,::-1]\n")
ok('C34', PST, "        idx = np.argsort(np.real(w))[::-1]\n", "        idx = np.flip(np.argsort(w.real))\n")
ok('C34', PST, "        idx = np.argsort(np.real(w))[::-1]\n", "        idx = np.argsort(-np.real(w))\n")
ok('C34', PBA, "        t_mean = t_sum / self.nt\n", "        t_mean = np.mean(data, axis=0)\n")
ok('C34', PST, "        phi = np.real(d @ v) / np.sqrt(w[:])\n\n        # truncation and save\n        phi_r = phi[:,0:self._n_modes_save]\n", "        n = self._n_modes_save\n        phi_r = np.real(np.matmul(d, v[:,:n])) / np.sqrt(w[:n])\n")
ok('C34', PST, "        d = d - self._t_mean\n        d = d.T\n", "        d = (d - self._t_mean).transpose()\n")
ok('C34', PUT, "    coeffs = np.transpose(phir) @ (weights * np.transpose(data))\n", "    coeffs = (weights * phir).T @ data.T\n")
ok('C34', PST, "        Q = d.conj().T @ (d * self._weights)\n", "        Q = np.dot((d * self._weights).conj().T, d)\n")

# C30
ER = 'pyspod/utils/errors.py'
bad('C30', ER, "np.linalg.norm(ef) / n", "np.linalg.norm(ef) / np.sqrt(n)")
bad('C30', ER, "    n = data.size\n", "    n = data.shape[0]\n")
bad('C30', ER, "np.linalg.norm(ef, 1) / n", "np.linalg.norm(e, 1) / n")
bad('C30', ER, "np.linalg.norm(e_rel, 1) / n", "np.linalg.norm(ef, 1) / np.linalg.norm(data_ref.flatten('C'), 1) / n")
bad('C30', ER, "np.amax(e_rel)", "np.amax(ef) / np.amax(np.abs(data_ref))")
bad('C30', ER, "data_ref.flatten('C')", "data.flatten('C')")
bad('C30', ER, "ef = e.flatten('C')", "ef = e.flatten('F')")
bad('C30', ER, "np.abs(uprime - utrueprime)**2", "(uprime - utrueprime)**2")
bad('C30', ER, "            if i == 0:\n", "            if i <= 1:\n")
bad('C30', ER, "(dt * np.sum(", "(np.sum(")
bad('C30', ER, "        raise ValueError(norm_type, ' not implemented.')\n    return error_norm\n\n\ndef", "        error_norm = np.linalg.norm(ef) / n\n    return error_norm\n\n\ndef")
bad('C30', ER, "norm_type='l2'", "norm_type='l1'")
ok('C30', ER, "np.linalg.norm(ef, 1) / n", "np.sum(ef) / n")
ok('C30', ER, "np.linalg.norm(ef, 1) / n", "np.mean(ef)")
ok('C30', ER, "np.linalg.norm(ef) / n", "np.sqrt(np.sum(ef**2)) / data.size")
ok('C30', ER, "np.amax(ef)", "np.linalg.norm(ef, np.inf)")
ok('C30', ER, "np.amax(ef)", "ef.max()")
ok('C30', ER, "    ef = e.flatten('C')\n    e_rel = ef / np.abs(data_ref.flatten('C'))\n", "    ef = e.ravel()\n    e_rel = np.abs((data - data_ref) / data_ref).ravel()\n")
ok('C30', ER, "        for i in range(data.shape[0]):\n            if i == 0:\n                uprime = 0\n                utrueprime = 0\n            else:\n                uprime = (data[i,...] - data[i-1,...]) / dt\n                utrueprime = (data_ref[i,...] - data_ref[i-1,...]) / dt\n            err_h1",
   "        for i in range(1, data.shape[0]):\n            uprime = (data[i] - data[i-1]) / dt\n            utrueprime = (data_ref[i] - data_ref[i-1]) / dt\n            err_h1")
ok('C30', ER, "        for i in range(data.shape[0]):\n            if i == 0:\n                uprime = 0\n                utrueprime = 0\n            else:\n                uprime = (data[i,...] - data[i-1,...]) / dt\n                utrueprime = (data_ref[i,...] - data_ref[i-1,...]) / dt\n            err_h1 = err_h1 + (dt * np.sum(np.abs(uprime - utrueprime)**2))\n",
   "        de = np.diff(data - data_ref, axis=0) / dt\n        err_h1 = dt * np.sum(np.abs(de)**2)\n")
ok('C30', ER, "    if   norm_type == 'l1'  : error_norm = np.linalg.norm(ef, 1) / n\n", "    if norm_type in ('l1', 'l1_rel'):\n        v = ef if norm_type == 'l1' else e_rel\n        return np.linalg.norm(v, 1) / n\n")

# C31
PP = 'pyspod/utils/postproc.py'
bad('C31', PP, "    idx = (np.abs(freq - freq_req)).argmin()\n", "    idx = np.searchsorted(freq, freq_req)\n")
bad('C31', PP, "    idx = (np.abs(freq - freq_req)).argmin()\n", "    idx = (np.abs(np.abs(freq) - freq_req)).argmin()\n")
bad('C31', PP, "indexing='ij'", "indexing='xy'")
bad('C31', PP, "        tmp = np.abs(grid[i,::] - coord)\n", "        tmp = grid[i,::] - coord\n")
bad('C31', PP, "        idx += (tmp_idx[i],)\n", "        idx += (tmp_idx[-1],)\n")
bad('C31', PP, "    if grid[0,::].shape != data_space_dim:\n", "    if grid[0,::].size != np.prod(data_space_dim):\n")
bad('C31', PP, "    if grid[0,::].shape != data_space_dim:\n", "    if len(grid[0,::].shape) != len(data_space_dim):\n")
bad('C31', SB, "        d = data[t_0:t_end,...]\n", "        d = data[t_0:t_end+1,...]\n")
bad('C31', SB, "        if t_0 is None: t_0 = 0\n", "        if t_0 is None: t_0 = 1\n")
bad('C31', SB, "            if not freq:\n                freq = self.freq\n", "            freq = np.sort(self.freq)[::-1]\n")
ok('C31', PP, "    idx = (np.abs(freq - freq_req)).argmin()\n", "    idx = np.argmin(np.abs(freq_req - freq))\n")
ok('C31', PP, "        tmp = np.abs(grid[i,::] - coord)\n        tmp_idx = np.unravel_index(np.argmin(tmp), tmp.shape)\n        tuple_idx = (i,) + tmp_idx\n        xi += (grid[tuple_idx],)\n        idx += (tmp_idx[i],)\n",
   "        j = np.argmin(np.abs(x[i] - coord))\n        xi += (x[i][j],)\n        idx += (j,)\n")
ok('C31', PP, "    if isinstance(x, list):\n        grid = np.array(np.meshgrid(*x, indexing='ij'))\n    else:\n        raise TypeError('`x` must be a list.')\n",
   "    if not isinstance(x, list):\n        raise TypeError('`x` must be a list.')\n    grid = np.stack(np.meshgrid(*x, indexing='ij'))\n")
ok('C31', PP, "    if grid[0,::].shape != data_space_dim:\n", "    if tuple(len(c) for c in x) != tuple(data_space_dim):\n")
ok('C31', SB, "        if not isinstance(freq, (list,np.ndarray,tuple)):\n            if not freq:\n                freq = self.freq\n", "        if freq is None:\n            freq = self.freq\n")
ok('C31', SB, "        if self._nv == 1 and (d.ndim != self._xdim + 2):\n            d = d[...,np.newaxis]\n        return d\n", "        if self._nv == 1 and d.ndim == self._xdim + 1:\n            d = np.expand_dims(d, -1)\n        return d\n")
# C07
bad('C07', SB, "path_weights = os.path.join(self._savedir_sim, 'weights.npy')", "path_weights = os.path.join(self._savedir_sim, 'weight.npy')")
bad('C07', SB, "self._params['n_freq'] = int(self._n_freq)", "self._params['n_freq'] = int(self._n_blocks)")
bad('C07', SB, "path_params = os.path.join(self._savedir_sim, 'params_modes.yaml')", "path_params = os.path.join(self._savedir, 'params_modes.yaml')")
bad('C07', SB, "path_eigs  = os.path.join(self._savedir_sim, 'eigs_freq')", "path_eigs  = os.path.join(self._savedir_sim, 'eigs')")
bad('C07', PP, "    tmp_str = f'freq_idx_{freq_idx:08d}.npy'", "    tmp_str = f'freq_idx_{freq_idx:06d}.npy'")
bad('C07', PP, "modes = sorted(glob.glob(os.path.join(filename)))", "modes = glob.glob(os.path.join(filename))")
bad('C07', PP, "                m[...,idx] = mode\n", "                m[...,nmodes-1-idx] = mode\n")
bad('C07', SU, "    return file_coeffs, coeffs_dir\n\n\ndef compute_coeffs_conv(", "    return file_coeffs, results_dir\n\n\ndef compute_coeffs_conv(")
bad('C07', SU, "    file_lt_mean = os.path.join(coeffs_dir, 'ltm.npy')\n    file_phir    =", "    file_lt_mean = os.path.join(coeffs_dir, 'ltmean.npy')\n    file_phir    =")
bad('C07', SB, "        self._file_recons = file_recons\n        self._coeffs_dir = coeffs_dir\n", "        self._file_recons = file_recons\n        self._coeffs_dir = os.path.dirname(coeffs_dir)\n")
bad('C07', PU, "file_weights = os.path.join(results_dir, 'weights.npy')", "file_weights = os.path.join(results_dir, 'weights_pod.npy')")
bad('C07', 'pyspod/spod/streaming.py', "filename = f'freq_idx_{f:08d}.npy'", "filename = f'freq_idx_{f}.npy'")
bad('C07', SS, "filename = f'freq_idx_{f:08d}.npy'", "filename = f'freq_idx_{f+1:08d}.npy'")
bad('C07', SU, "        phi = np.reshape(phi,[xsize,n_modes_save])", "        phi = np.reshape(phi,[xsize,n_modes_save],order='F')")
ok('C07', PP, "            m = None\n            for idx, imode in enumerate(modes):\n                mode = np.load(imode)\n                if idx == 0:\n                    m = np.zeros((mode.shape)+(nmodes,), dtype=mode.dtype)\n                m[...,idx] = mode\n",
   "            m = np.stack([np.load(imode) for imode in modes], axis=-1)\n")
ok('C07', SB, "        path_weights = os.path.join(self._savedir_sim, 'weights.npy')\n", "        path_weights = self._savedir_sim + '/' + 'weights.npy'\n")
ok('C07', SS, "                    filename = f'freq_idx_{f:08d}.npy'\n", "                    filename = 'freq_idx_' + str(f).zfill(8) + '.npy'\n")
ok('C07', PP, "    tmp_str = f'freq_idx_{freq_idx:08d}.npy'", "    tmp_str = 'freq_idx_{:08d}.npy'.format(freq_idx)")
ok('C07', PP, "    tmp_str = f'freq_idx_{freq_idx:08d}.npy'", "    tmp_str = 'freq_idx_%08d.npy' % freq_idx")
# C22
bad('C22', SS, "                    writer = i % comm.size\n", "                    writer = (i // self._n_modes_save) % comm.size\n")
bad('C22', SS, "range(0,math.ceil(total_files/comm.size))", "range(0,total_files//comm.size)")
bad('C22', SS, "write_e = min((ipass+1) * comm.size, total_files)", "write_e = min((ipass+1) * comm.size, total_files - 1)")
bad('C22', SS, "                        start = irank*phi0_max\n", "                        start = irank*recvcounts[irank]\n")
bad('C22', SS, "                        end_nopad = np.sum(recvcounts[:irank+1])\n                        data[start_nopad:end_nopad,...] = data[start:end,...]\n", "                        end_nopad = np.sum(recvcounts[:irank+1])\n                        if irank: data[start_nopad:end_nopad,...] = data[start+1:end+1,...]\n")
bad('C22', SS, "data = data[:np.sum(recvcounts)].reshape(self._xshape+(self._nv,))", "data = data[:np.sum(recvcounts)].reshape((self._nv,)+self._xshape)")
bad('C22', SS, "                    f = i // self._n_modes_save\n                    m = i % self._n_modes_save\n", "                    f = i // self._n_modes_save\n                    m = i % self._n_freq\n")
bad('C22', SS, "                    MPI.Request.Waitall(reqs_r)\n", "                    MPI.Request.Waitall(reqs_r[:-1])\n")
bad('C22', SS, "                MPI.Request.Waitall(reqs_s)\n", "                if rank != 0 or ipass == 0: MPI.Request.Waitall(reqs_s)\n")
bad('C22', SS, "filename = f'freq_idx_f{f:08d}_m{m:08d}.npy'", "filename = f'freq_idx_f{m:08d}_m{f:08d}.npy'")
bad('C22', SS, "reqs_r.append(comm.Irecv([data[phi0_max*irank:],mpi_dtype],source=irank))", "reqs_r.append(comm.Irecv([data[phi0_max*irank:],mpi_dtype],source=(irank+rank)%comm.size))")
bad('C22', SS, "phi_dict[f][m] = phi[:,m].copy()", "phi_dict[f][m] = phi[:,-1-m].copy()")
bad('C22', SS, "phi0_max = comm.allreduce(phi_dict[0][0].shape[0], op=MPI.MAX)", "phi0_max = comm.allreduce(phi_dict[0][0].shape[0], op=MPI.MIN)")
bad('C22', SS, "                s_msgs = {}\n                reqs_r = []\n", "                s_buf = np.zeros(phi0_max, dtype=phi_dtype)\n                s_msgs = {}\n                reqs_r = []\n",
    ) if False else None
ok('C22', SS, "                    f = i // self._n_modes_save\n                    m = i % self._n_modes_save\n                    writer = i % comm.size\n", "                    f, m = divmod(i, self._n_modes_save)\n                    writer = i - write_s\n")
ok('C22', SS, "                    f = i // self._n_modes_save\n                    m = i % self._n_modes_save\n", "                    f = i % self._n_freq\n                    m = i // self._n_freq\n")
ok('C22', SS, "                        start_nopad = np.sum(recvcounts[:irank])\n                        end_nopad = np.sum(recvcounts[:irank+1])\n                        data[start_nopad:end_nopad,...] = data[start:end,...]\n",
   "                        first = recvcounts[:irank].sum()\n                        data[first:first+recvcounts[irank]] = data[start:end]\n")
ok('C22', SS, "                MPI.Request.Waitall(reqs_s)\n", "                for req in reqs_s:\n                    req.Wait()\n")
ok('C22', SS, "                    if rank == writer:\n                        write = (f,m)\n                        for irank in range(comm.size):\n                            reqs_r.append(comm.Irecv([data[phi0_max*irank:],mpi_dtype],source=irank))\n",
   "                    if rank == writer:\n                        write = (f,m)\n                        reqs_r = [comm.Irecv([data[phi0_max*s:phi0_max*(s+1)],mpi_dtype],source=s) for s in range(comm.size)]\n")
ok('C22', SS, "            for ipass in range(0,math.ceil(total_files/comm.size)):\n                write_s = ipass * comm.size\n                write_e = min((ipass+1) * comm.size, total_files)\n",
   "            for write_s in range(0,total_files,comm.size):\n                write_e = min(write_s + comm.size, total_files)\n")

# C20
RD = 'pyspod/utils/reader.py'
bad('C20', RD, "time_to = d[first_var].values[read_je-cum_t-1]", "time_to = d[first_var].values[read_je-cum_t-2]")
bad('C20', RD, "input_data[cum_read:cum_read+read_cnt,:,idx] = vals", "input_data[:read_cnt,:,idx] = vals")
bad('C20', RD, "read_js = max(d_js, js)\n            read_je = min(d_je, je)\n            read_cnt", "read_js = max(d_js, ts)\n            read_je = min(d_je, je)\n            read_cnt")
bad('C20', RD, "offset[irank+1] = offset[irank] + nt", "offset[irank+1] = offset[irank] + n_dist_time")
bad('C20', RD, "recvcounts[irank]    = nt*self._nv", "recvcounts[irank]    = n_dist_time*self._nv")
bad('C20', RD, "s_msgs[irank][:,:irank_n_xyz,:] = (input_data[:,irank_s_xyz:irank_s_xyz+irank_n_xyz,:])", "s_msgs[irank][:,-irank_n_xyz:,:] = (input_data[:,irank_s_xyz:irank_s_xyz+irank_n_xyz,:])")
bad('C20', RD, "n_irank, s_irank = utils_par._blockdist(n_all_xyz, mpi_size, irank)\n", "n_irank, s_irank = utils_par._blockdist(n_all_xyz, mpi_size, mpi_rank)\n")
bad('C20', RD, "            MPI.Request.Waitall(reqs)\n", "            MPI.Request.Waitall(reqs[:-1])\n")
bad('C20', RD, "            data_padded = data_padded[:,:n_dist_xyz,:]\n", "            data_padded = data_padded[:,max_dist_xyz-n_dist_xyz:,:]\n")
bad('C20', RD, "r_msg = [data_padded, (recvcounts, None), ftype] if mpi_rank==irank else None", "r_msg = [data_padded, (recvcounts, None), ftype] if mpi_rank==0 else None")
bad('C20', RD, "data_dict[blk_idx]['s'] = t_s+blk_t_s", "data_dict[blk_idx]['s'] = blk_t_s")
bad('C20', RD, "data_dict[blk_idx]['v'] = x[blk_t_s:blk_t_e].copy()", "data_dict[blk_idx]['v'] = x[blk_t_s:blk_t_e+1].copy()[:blk_t_e-blk_t_s][::-1]")
bad('C20', RD, "blk_idx = chunk*nblks + blk", "blk_idx = chunk + nblks*blk")
bad('C20', RD, "for blk in range(0,nblks):", "for blk in reversed(range(0,nblks)):")
bad('C20', RD, "            nchunks = max(nchunks,1)\n", "")
bad('C20', RD, "self._files = sorted(data_list)", "self._files = data_list")
bad('C20', RD, "data = np.transpose(data, axes=[1, 2, 3, 0])", "data = np.transpose(data, axes=[3, 2, 1, 0])")
bad('C20', RD, "                    input_data[cum_read,...] = data.reshape(-1,self._nv)", "                    input_data[cum_t,...] = data.reshape(-1,self._nv)")
bad('C20', SS, "if start > v_e:", "if start + (end-start)//2 > v_e:")
bad('C20', SS, "if start > v_e:", "if end > v_e:")
ok('C20', SS, "bstart += read_here_cnt", "bstart = start + read_here_cnt")
bad('C20', SS, "vals[read_here_s-v_s:read_here_e-v_s,...]", "vals[:read_here_cnt,...]")
bad('C20', SB, "for k,v in data.items():\n                val = v[\"v\"]\n                t_sum += np.sum(val, axis=0)", "for k,v in data.items():\n                val = v[\"v\"]\n                t_sum += np.mean(val, axis=0)*(self.nt/len(data))")
bad('C20', SB, "shape_sxv = last_val[0,...].size\n            t_sum = np.zeros(last_val[0,...].shape)\n\n            for k,v in data.items():", "shape_sxv = last_val[0,...].size\n            t_sum = np.zeros(last_val[0,...].shape)\n\n            for k,v in list(data.items())[:-1]:")
ok('C20', RD, "            for irank in range(mpi_size):\n                reqs.append(comm.Irecv([data[offset[irank]:,:,:],mpi_dtype], source=irank))\n\n            for irank in range(mpi_size):\n                s_msg = [s_msgs[irank], mpi_dtype]\n                reqs.append(comm.Isend(s_msg, dest=irank))\n",
   "            for irank in range(mpi_size):\n                reqs.append(comm.Irecv([data[offset[irank]:offset[irank+1]],mpi_dtype], source=irank))\n                reqs.append(comm.Isend([s_msgs[irank], mpi_dtype], dest=irank))\n")
ok('C20', RD, "            cum_t = cum_t + (v[1]-v[0])\n", "            cum_t += v[1] - v[0]\n")
ok('C20', RD, "        for k, v in self._file_time.items():\n            d_js = cum_t\n            d_je = d_js + (v[1]-v[0])\n", "        for k, v in self._file_time.items():\n            d_js, d_je = v\n")
ok('C20', RD, "        js = ts + s_dist_time\n        je = ts + s_dist_time+n_dist_time\n", "        js = s_dist_time + ts\n        je = js + n_dist_time\n")
ok('C20', RD, "                    data_dict[blk_idx] = {}\n                    data_dict[blk_idx]['s'] = t_s+blk_t_s\n                    data_dict[blk_idx]['e'] = t_s+blk_t_e\n                    data_dict[blk_idx]['v'] = x[blk_t_s:blk_t_e].copy()\n",
   "                    data_dict[blk_idx] = {'s': t_s+blk_t_s, 'e': t_s+blk_t_e, 'v': x[blk_t_s:blk_t_e].copy()}\n")
ok('C20', SS, "                read_here_s = max(v_s, bstart)\n                read_here_e = min(v_e, end)\n                read_here_cnt = read_here_e - read_here_s\n\n                if read_here_cnt > 0:\n", "                read_here_s = max(v_s, bstart)\n                read_here_e = min(v_e, end)\n                read_here_cnt = read_here_e - read_here_s\n                if read_here_e > read_here_s:\n")
ok('C20', SS, "            keys_to_del = []\n            for k,v in self.data.items():\n                v_s = v[\"s\"]\n                v_e = v[\"e\"]\n                if start > v_e:\n                    keys_to_del.append(k)\n", "            keys_to_del = [k for k,v in self.data.items() if v[\"e\"] < start]\n")
ok('C20', SB, "                val = v[\"v\"]\n                t_sum += np.sum(val, axis=0)\n", "                t_sum = t_sum + v[\"v\"].sum(axis=0)\n")

# C23
UP = 'pyspod/utils/parallel.py'
bad('C23', UP, "        gdispl -= lcount\n", "")
bad('C23', UP, "        sizes[axis] = int(gcount)\n", "        sizes[0] = int(gcount)\n")
bad('C23', UP, "        starts[axis] = int(gdispl)\n", "        starts[axis] = int(comm.rank * lcount)\n")
bad('C23', UP, "        array = np.ascontiguousarray(array)\n", "")
bad('C23', UP, "        array = np.ascontiguousarray(array)\n        if array.flags.c_contiguous:\n            mpi_order = MPI.ORDER_C\n", "        if array.flags.c_contiguous:\n            mpi_order = MPI.ORDER_C\n")
bad('C23', UP, "        file.Set_size(0)  # truncate if the file exists\n", "")
bad('C23', UP, "            data['shape'] = tuple(sizes)\n", "")
bad('C23', UP, "        comm.Bcast(offset, root=0)\n", "")
bad('C23', UP, "                subsizes=shape,\n                starts=starts,\n                order=mpi_order,\n", "                subsizes=shape,\n                starts=starts,\n                order=MPI.ORDER_FORTRAN,\n")
bad('C23', UP, "        subarray.Free()\n        file.Write_all(array)", "        file.Write_all(array)")
bad('C23', UP, "        file.Sync()\n        file.Close()\n", "        file.Sync()\n        if comm.rank == 0: file.Close()\n")
bad('C23', UP, "        if shape[axis] > 0:\n            subarray", "        if shape[axis] >= 0:\n            subarray")
bad('C23', UP, "            count = count // size + (count % size > rank)\n", "            count = count // size + (count % size >= rank)\n")
bad('C23', UP, "        displ -= count\n", "")
bad('C23', UP, "        array = np.empty(shape, dtype, npy_order)\n", "        array = np.empty(shape, dtype)\n")
bad('C23', UP, 'if npy_order == "C":', 'if npy_order != "C":')
bad('C23', UP, "        array = np.empty(shape, dtype, npy_order)\n        file.Read_all(array)\n        file.Close()\n", "        array = np.empty(shape, dtype, npy_order)\n        file.Read_all(array)\n")
bad('C23', UP, 'comm.Scan(count, displ, op=MPI.SUM)', 'comm.Scan(count, displ, op=MPI.MAX)')
bad('C23', RD, "            ftype.Free()\n", "")
bad('C23', SS, "            mpi_dtype.Free()\n", "            if rank == 0: mpi_dtype.Free()\n")
bad('C23', UP, "        np.save(filename, array)\n", "        np.save(filename, array[:])if axis == 0 else np.save(filename, np.moveaxis(array, axis, 0))\n")
ok('C23', UP, "        sizes = list(shape)\n        sizes[axis] = int(gcount)\n        starts = [0] * len(sizes)\n        starts[axis] = int(gdispl)\n", "        sizes = list(shape[:axis]) + [int(gcount)] + list(shape[axis+1:])\n        starts = [int(gdispl) if i == axis else 0 for i in range(len(sizes))]\n")
ok('C23', UP, "        datatype.Free()\n        subarray.Free()\n        file.Write_all(array)\n        file.Sync()\n        file.Close()\n", "        file.Write_all(array)\n        file.Sync()\n        file.Close()\n        subarray.Free()\n        datatype.Free()\n")
ok('C23', UP, "        array = np.ascontiguousarray(array)\n        if array.flags.c_contiguous:\n            mpi_order = MPI.ORDER_C\n        elif array.flags.f_contiguous:\n            mpi_order = MPI.ORDER_FORTRAN\n", "        array = np.ascontiguousarray(array)\n        mpi_order = MPI.ORDER_C\n")
ok('C23', UP, "        gdispl = np.empty_like(lcount)\n        comm.Scan(lcount, gdispl, op=MPI.SUM)\n        gdispl -= lcount\n", "        gdispl = comm.scan(int(lcount), op=MPI.SUM) - int(lcount)\n")
ok('C23', UP, "            rank = comm.Get_rank()\n            count = count // size + (count % size > rank)\n", "            count, _ = _blockdist(count, size, comm.Get_rank())\n")
ok('C23', UP, "            data = np.lib.format.header_data_from_array_1_0(array)\n            data['shape'] = tuple(sizes)\n            fp = io.BytesIO()\n            write_array_header(fp, data)\n", "            fp = io.BytesIO()\n            info = np.lib.format.header_data_from_array_1_0(array)\n            info.update(shape=tuple(sizes))\n            write_array_header(fp, info)\n")
ok('C23', UP, "        if npy_order == \"C\":\n            mpi_order = MPI.ORDER_C\n        else:\n            mpi_order = MPI.ORDER_FORTRAN\n", "        mpi_order = MPI.ORDER_C if npy_order == 'C' else MPI.ORDER_FORTRAN\n")

# ---- C08
bad('C08', SB, "            if (all_freq_exist == n_freq):\n", "            if all_freq_exist > 0:\n")
bad('C08', SB, "        if all_blocks_exist == n_blocks:\n", "        if all_blocks_exist >= n_blocks - 1:\n")
bad('C08', SB, "        for i_blk in range(0,n_blocks):\n            all_freq_exist = 0\n", "        all_freq_exist = 0\n        for i_blk in range(0,n_blocks):\n")
bad('C08', SS, "                    file = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'\n                    path = os.path.join(self._blocks_folder, file)\n                    Q_hats", "                    file = f'fft_block{i_freq:08d}_freq{i_blk:08d}.npy'\n                    path = os.path.join(self._blocks_folder, file)\n                    Q_hats")
bad('C08', SS, "                    Q_blk_hat = qhat\n", "                    Q_blk_hat = qhat * self._win_weight\n")
bad('C08', SS, "                        np.load(path), size_qhat[:-1])\n", "                        np.load(path), size_qhat[:-1], order='F')\n")
bad('C08', SS, "                        Q_blk_hat_fr = Q_blk_hat[i_freq,:]\n", "                        Q_blk_hat_fr = Q_blk_hat[i_freq,:]\n                        if i_freq > 0: Q_blk_hat_fr = 2 * Q_blk_hat_fr\n")
bad('C08', SB, "        self._blocks_folder = os.path.join(self._savedir_sim, 'blocks')\n", "        self._blocks_folder = os.path.join(self._savedir, 'blocks')\n")
bad('C08', SS, "                    Q_hats[i_freq][...,i_blk] = np.reshape(", "                    Q_hats[i_freq][...,i_blk-1] = np.reshape(")
bad('C08', SS, "                if self._savefft == True:\n                    Q_blk_hat = qhat\n", "                if self._savefft == True:\n                    Q_hats[i_blk][0][:] = 0\n                    Q_blk_hat = qhat\n")
bad('C08', SS, "            for i_blk in range(0, self._n_blocks):\n                print(f'Loading", "            for i_blk in range(0, self._n_blocks - 1):\n                print(f'Loading")
bad('C08', SS, "                    for i_freq in range(0, self._n_freq):\n                        Q_blk_hat_fr", "                    for i_freq in range(1, self._n_freq):\n                        Q_blk_hat_fr")
ok('C08', SB, "            if (all_freq_exist == n_freq):\n", "            if all_freq_exist >= n_freq:\n")
ok('C08', SB, "        all_blocks_exist = 0\n        for i_blk in range(0,n_blocks):\n            all_freq_exist = 0\n            for i_freq in range(0,n_freq):\n                tmp_name = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'\n                filename = os.path.join(savedir, tmp_name)\n                if os.path.exists(filename): all_freq_exist = all_freq_exist + 1\n            if (all_freq_exist == n_freq):\n                blk = (i_blk + 1) / n_blocks\n                utils_par.pr0(f'block {blk} present in: {savedir}', comm)\n                all_blocks_exist = all_blocks_exist + 1\n        if all_blocks_exist == n_blocks:\n", "        present = all(\n            os.path.exists(os.path.join(savedir, f'fft_block{b:08d}_freq{f:08d}.npy'))\n            for b in range(n_blocks) for f in range(n_freq))\n        if present:\n")
ok('C08', SB, "        all_blocks_exist = 0\n        for i_blk in range(0,n_blocks):\n            all_freq_exist = 0\n            for i_freq in range(0,n_freq):\n                tmp_name = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'\n                filename = os.path.join(savedir, tmp_name)\n                if os.path.exists(filename): all_freq_exist = all_freq_exist + 1\n            if (all_freq_exist == n_freq):\n                blk = (i_blk + 1) / n_blocks\n                utils_par.pr0(f'block {blk} present in: {savedir}', comm)\n                all_blocks_exist = all_blocks_exist + 1\n        if all_blocks_exist == n_blocks:\n", "        missing = False\n        for i_blk in range(n_blocks):\n            for i_freq in range(n_freq):\n                name = 'fft_block%08d_freq%08d.npy' % (i_blk, i_freq)\n                if not os.path.isfile(os.path.join(savedir, name)):\n                    missing = True\n        if not missing:\n")
ok('C08', SS, "            Q_hats = {}\n            size_qhat = [*self._xshape, self._nv, self._n_blocks]\n            for f in range(self._n_freq):\n                Q_hats[f] = np.empty(size_qhat, dtype=self._complex)\n\n            for i_blk in range(0, self._n_blocks):\n                print(f'Loading block {i_blk}/{self._n_blocks}')\n                for i_freq in range(0, self._n_freq):\n", "            size_qhat = (*self._xshape, self._nv, self._n_blocks)\n            Q_hats = {f: np.empty(size_qhat, dtype=self._complex) for f in range(self._n_freq)}\n            for i_freq in range(self._n_freq):\n                for i_blk in range(self._n_blocks):\n")
ok('C08', SS, "                shape = [qhat[...,0].size, qhat.shape[-1]]\n                Q_hats[f] = np.reshape(Q_hats[f], shape)\n", "                Q_hats[f] = qhat.reshape(-1, qhat.shape[-1])\n")
ok('C08', SS, "                    Q_blk_hat = qhat\n                    for i_freq in range(0, self._n_freq):\n                        Q_blk_hat_fr = Q_blk_hat[i_freq,:]\n", "                    for i_freq in range(0, self._n_freq):\n                        Q_blk_hat_fr = qhat[i_freq].copy()\n")
ok('C08', SS, "                        file = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'\n                        path = os.path.join(self._blocks_folder, file)\n                        shape", "                        path = self._blocks_folder + f'/fft_block{i_blk:08d}_freq{i_freq:08d}.npy'\n                        shape")

# ---- C27
bad('C27', SB, "        self._modes_dir = os.path.join(self._savedir_sim, 'modes')\n", "        os.chdir(self._savedir_sim)\n        self._modes_dir = os.path.join(self._savedir_sim, 'modes')\n")
bad('C27', SB, "            +'_novlp'+str(self._n_overlap) \\\n", "")
bad('C27', SB, "            +'_nblks'+str(self._n_blocks)  \\\n", "")
bad('C27', SB, "            'nfft'+str(self._n_dft)\n", "            'nfft'+str(self._n_freq)\n")
bad('C27', SU, "    if savedir is not None: coeffs_dir = os.path.join(coeffs_dir, savedir)\n    if rank == 0:", "    if savedir is not None: coeffs_dir = savedir\n    if rank == 0:")
bad('C27', SU, "    if filename is None: filename = 'reconstructed'\n", "    filename = 'reconstructed'\n")
bad('C27', PU, "    if filename is None: filename = 'reconstructed'\n", "    filename = filename or 'reconstructed'\n    if os.path.exists(os.path.join(coeffs_dir, filename+'.npy')): os.remove(os.path.join(coeffs_dir, filename+'.npy'))\n")
bad('C27', SU, "    coeffs_dir = os.path.join(results_dir, f'coeffs_{f_idx_lb}_{f_idx_ub}')\n", "    coeffs_dir = os.path.join(results_dir, f'coeffs_{f_idx_lb}')\n")
bad('C27', PA, "def barrier(comm):\n", "def barrier(comm):\n    os.environ['OMP_NUM_THREADS'] = '1'\n")
bad('C27', SS, "        self._pr0(f'Calculating temporal DFT", "        np.seterr(all='ignore')\n        self._pr0(f'Calculating temporal DFT")
bad('C27', SB, "        self._savedir_sim = os.path.join(self._savedir,\n", "        self._savedir_sim = os.path.join(CWD,\n")
ok('C27', SB, "        self._savedir_sim = os.path.join(self._savedir,\n            'nfft'+str(self._n_dft)\n            +'_novlp'+str(self._n_overlap) \\\n            +'_nblks'+str(self._n_blocks)  \\\n        )\n", "        self._savedir_sim = f'{self._savedir}/nfft{self._n_dft}_novlp{self._n_overlap}_nblks{self._n_blocks}'\n")
ok('C27', SB, "            if not os.path.exists(self._modes_dir):\n                os.makedirs(self._modes_dir)\n", "            os.makedirs(self._modes_dir, exist_ok=True)\n")
ok('C27', SU, "    coeffs_dir = os.path.join(results_dir, f'coeffs_{f_idx_lb}_{f_idx_ub}')\n", "    coeffs_dir = os.path.join(results_dir, 'coeffs_%d_%d' % (f_idx_lb, f_idx_ub))\n")
ok('C27', PU, "    file_dynamics = os.path.join(coeffs_dir, filename+'.npy')\n", "    file_dynamics = os.path.join(coeffs_dir, f'{filename}.npy')\n")

# ---- C25
bad('C25', SB, "        if self._n_overlap > self._n_dft - 1:\n", "        if self._n_overlap > self._n_dft:\n")
bad('C25', SB, "        if (self._n_dft < 4) or (self._n_blocks < 2):\n", "        if (self._n_dft < 4) or (self._n_blocks < 1):\n")
bad('C25', SB, "        if (self._n_dft < 4) or (self._n_blocks < 2):\n", "        if (self._n_dft < 4) and (self._n_blocks < 2):\n")
bad('C25', SB, "        if (self._n_dft < 4) or (self._n_blocks < 2):\n", "        if (self._n_dft <= 4) or (self._n_blocks < 2):\n")
bad('C25', SB, "            raise ValueError(self._mean_type, 'not recognized.')\n", "            self._t_mean = 0.0\n")
bad('C25', SB, "        elif self._mean_type == 'zero'     : self._t_mean = 0.0\n        else:", "        elif 'zero' in self._mean_type or not self._mean_type: self._t_mean = 0.0\n        else:")
bad('C25', SB, "            if np.size(self._weights) != int(self.nx * self.nv):\n", "            if np.size(self._weights) < int(self.nx * self.nv):\n                self._weights = np.resize(self._weights, self._xshape+(self._nv,))\n            if np.size(self._weights) != int(self.nx * self.nv):\n")
bad('C25', PBA, "        elif self._mean_type == 'zero'  : self._t_mean = 0.0\n        else:", "        elif self._mean_type in ('zero', 'blockwise'): self._t_mean = 0.0\n        else:")
bad('C25', SB, "            assert self._comm is not None, 'savefreq_disk2 only makes sense for parallel runs'\n", "            pass\n")
bad('C25', SU, "        raise TypeError('`time_idx` parameter type not recognized.')\n", "        time_idx = np.arange(0, nt)\n")
bad('C25', SU, "        raise ValueError(f'invalid dtype {dtype}.')\n", "        d_float = np.float64; d_complex = np.complex128\n")
bad('C25', RD, "                assert d.shape[1:] == tmp_shape[1:], 'All datasets must have the same spatial shape'\n", "                assert len(d.shape) == len(tmp_shape), 'All datasets must have the same spatial shape'\n")
bad('C25', SB, "        self._mean_type = self._mean_type.lower()\n        self._lt_mean", "        self._lt_mean")
ok('C25', SB, "        if (self._n_dft < 4) or (self._n_blocks < 2):\n", "        if not (self._n_dft >= 4 and self._n_blocks > 1):\n")
ok('C25', SB, "        if self._n_overlap > self._n_dft - 1:\n", "        if self._n_overlap >= self._n_dft:\n")
ok('C25', SB, "        if self._mean_type   == 'longtime' : self._t_mean = self._lt_mean\n        elif self._mean_type == 'blockwise': self._t_mean = 0.0\n        elif self._mean_type == 'zero'     : self._t_mean = 0.0\n        else:", "        if self._mean_type not in ('longtime', 'blockwise', 'zero'):\n            raise ValueError(self._mean_type, 'unknown.')\n        self._t_mean = self._lt_mean if self._mean_type == 'longtime' else 0.0\n        if False:")
ok('C25', SB, "            if np.size(self._weights) != int(self.nx * self.nv):\n", "            expected = self.nx * self.nv\n            if not np.size(self._weights) == expected:\n")
ok('C25', SU, "    elif isinstance(time_idx, list):\n        time_idx = time_idx\n    else:\n        raise TypeError", "    elif not isinstance(time_idx, list):\n        raise TypeError")

# C16 streaming
bad('C16', ST, "            mu = (ti * mu_old + x_new) / (ti + 1)\n", "            mu = (ti * mu_old + x_new) / (ti + 2)\n")
bad('C16', ST, "t_idx[block_i] = t_idx[block_i] - (block_i) * dn", "t_idx[block_i] = t_idx[block_i] - (block_i) * self._n_overlap")
bad('C16', ST, "int(np.ceil(self._n_dft / dn))", "int(np.floor(self._n_dft / dn))")
bad('C16', ST, "np.hstack((np.sqrt(block_i+2) * S, Ux))", "np.hstack((np.sqrt(block_i+1) * S, Ux))")
bad('C16', ST, "K = np.sqrt((block_i+1) / (block_i+2)**2) * K", "K = np.sqrt((block_i+1) / (block_i+2)) * K")
bad('C16', ST, "x_hat = self._win_weight / self._n_dft * x_hat", "x_hat = x_hat / self._n_dft")
bad('C16', ST, "                    x_sum[:,:,block_j] = 0\n", "")
bad('C16', ST, "dft[:,1:n_freq-1] = 2 * dft[:,1:n_freq-1]", "dft[:,1:n_freq] = 2 * dft[:,1:n_freq]")
bad('C16', ST, "Ux = np.matmul(U.conj().T, x)", "Ux = np.matmul(U.T, x)")
bad('C16', ST, "abs_up = np.matmul(u_p.conj().T, u_p)", "abs_up = np.matmul(x.conj().T, u_p)")
bad('C16', ST, "                    for i_freq in range(0,n_freq):\n\n                        ## new data", "                    for i_freq in range(0,n_freq-1):\n\n                        ## new data")
bad('C16', ST, "u_hat[:,:,0:n_m_save] * (1 / sqrt_w[:,:,np.newaxis])", "u_hat[:,:,0:n_m_save] * sqrt_w[:,:,np.newaxis]")
bad('C16', ST, "for row_idx in range(0,self._n_dft):", "for row_idx in range(1,self._n_dft):")
bad('C16', ST, "x = x_hat[:,[i_freq]] * sqrt_w[:]", "x = x_hat[:,[i_freq]] * self._weights[:]")
bad('C16', ST, "                if ti >= self._nt:\n", "                if ti >= self._nt - 1:\n")
bad('C16', ST, "self._eigs[:,i_freq] = Sp[0:self._n_modes_save]", "self._eigs[:,i_freq] = Sp[0:self._n_modes_save]**2")
ok('C16', ST, "                        K_2 = np.hstack((z, abs_up))\n                        K = np.vstack((K_1, K_2))\n                        del K_1, K_2\n", "                        K = np.concatenate((K_1, np.concatenate((z, abs_up), axis=1)), axis=0)\n                        del K_1\n")
ok('C16', ST, "Ux = np.matmul(U.conj().T, x)", "Ux = U.conj().T @ x")
ok('C16', ST, "                for row_idx in range(0,self._n_dft):\n                    x_hat = x_hat - (window[row_idx] * dft[row_idx,:]) * mu\n", "                kernel = 0\n                for row_idx in range(0,self._n_dft):\n                    kernel = kernel + window[row_idx] * dft[row_idx,:]\n                x_hat = x_hat - kernel * mu\n")
ok('C16', ST, "                for row_idx in range(0,self._n_dft):\n                    x_hat = x_hat - (window[row_idx] * dft[row_idx,:]) * mu\n", "                kernel = np.sum(np.reshape(window, (-1,1)) * dft, axis=0)\n                x_hat = x_hat - kernel * mu\n")
ok('C16', ST, "            mu_old = mu\n            mu = (ti * mu_old + x_new) / (ti + 1)\n", "            mu = mu + (x_new - mu) / (ti + 1)\n")
ok('C16', ST, "K = np.sqrt((block_i+1) / (block_i+2)**2) * K", "K = K * (np.sqrt(block_i+1) / (block_i+2))")
ok('C16', ST, "        phi = np.einsum('ijk->jik', phi)\n", "        phi = np.swapaxes(phi, 0, 1)\n")
ok('C16', ST, "        while True:\n            ti = ti + 1\n\n            ## get new snapshot and abort if data stream runs dry\n            if ti > 0:\n                if ti >= self._nt:\n                    self._pr0(f'--> Data stream ended.')\n                    break\n                x_new", "        for ti in range(self._nt):\n            if ti > 0:\n                x_new")
ok('C16', ST, "                        u_new = u_p / abs_up\n                        del u_p\n", "                        u_new = u_p * (1.0 / abs_up)\n                        del u_p\n")
ok('C16', ST, "                if t_idx[block_j] > -1:\n                    x_sum[:,:,block_j] = \\\n                        x_sum[:,:,block_j] + window[t_idx[block_j]] * \\\n                        dft[t_idx[block_j],:] * x_new\n", "                k = int(t_idx[block_j])\n                if k >= 0:\n                    x_sum[:,:,block_j] += window[k] * dft[k,:] * x_new\n")

# C26 names
bad('C26', ST, "                        del u_p\n", "                        del u_p, U\n")
bad('C26', ST, "            mu_old = mu\n", "            if ti > 0:\n                mu_old = mu\n")
bad('C26', SB, "            raise ValueError(self._mean_type, 'not recognized.')\n", "            raise ValueError(mean_type, 'not recognized.')\n")
bad('C26', PA, "    if comm is not None:\n        if comm.rank == 0:\n            print(string)\n", "    if comm is not None:\n        if comm.rank == 0:\n            print(strings)\n")
bad('C26', ST, "utils_par.npy_save(\n                self._comm, path_modes, phif, axis=self._max_axis)", "utils_par.npy_save(\n                self._comm, path_modes, phif, axes=self._max_axis)")
bad('C26', ST, "self._pr0(f'--> Data stream ended.')", "self._print0(f'--> Data stream ended.')")
bad('C26', ST, "np.ceil(self._n_dft / dn)", "np.ceiling(self._n_dft / dn)")
bad('C26', ST, "utils_par.allreduce(abs_up, comm=self._comm)", "utils_par.all_reduce(abs_up, comm=self._comm)")
bad('C26', PA, "        else:\n            subarray = datatype.Create_contiguous(0)\n", "")
bad('C26', 'pyspod/emulation/base.py', "import numpy as np\n", "import numpy\n")
ok('C26', ST, "            mu_old = mu\n            mu = (ti * mu_old + x_new) / (ti + 1)\n", "            if ti > 0:\n                mu_old = mu\n            mu = (ti * mu_old + x_new) / (ti + 1) if ti > 0 else x_new\n")
ok('C26', ST, "            mu_old = mu\n            mu = (ti * mu_old + x_new) / (ti + 1)\n", "            def advance(old, new):\n                return (ti * old + new) / (ti + 1)\n            mu = advance(mu, x_new)\n")
ok('C26', ST, "        z = np.zeros([1,n_m_save], dtype=self._float)\n", "        z = np.zeros([1,n_m_save], dtype=self._float)\n        try:\n            import psutil as ps\n        except ImportError:\n            ps = None\n        if ps is not None:\n            mem = ps.virtual_memory()\n        if ps is not None:\n            self._pr0(f'{mem}')\n")
ok('C26', PA, "        if array.flags.c_contiguous:\n            mpi_order = MPI.ORDER_C\n        elif array.flags.f_contiguous:\n            mpi_order = MPI.ORDER_FORTRAN\n", "        is_c = array.flags.c_contiguous\n        if is_c:\n            mpi_order = MPI.ORDER_C\n        if not is_c:\n            mpi_order = MPI.ORDER_FORTRAN\n")

# C29 emulation
EB = 'pyspod/emulation/base.py'
EN = 'pyspod/emulation/neural_nets.py'
bad('C29', EB, "                max_im = np.amax(data[:,:].imag,axis=1) * 10\n", "                max_im = np.amax(data[:,:].real,axis=1) * 10\n")
bad('C29', EB, "                    vec[i] = max(abs(max_re[i]), abs(min_re[i]))\n", "                    vec[i] = abs(max_re[i])\n")
bad('C29', EB, "                min_im = min([min(l) for l in data[:,:].imag])\n", "                min_im = min([min(l) for l in data[:,:].real])\n")
bad('C29', EB, "                max_re = max([max(l) for l in data[:,:].real])\n", "                max_re = max([max(l) for l in data[:1,:].real])\n")
bad('C29', EB, "data_out.imag[:,j] = data[:,j].imag / vec.imag", "data_out.imag[:,j] = data[:,j].imag / vec.real")
bad('C29', EB, "data_out.imag[:,j] = data[:,j].imag * vec.imag", "data_out.imag[:,j] = data[:,j].imag * abs(vec.imag) * 2")
bad('C29', EN, "total_size = nt - self._n_seq_in - self._n_seq_out - fh + 1", "total_size = nt - self._n_seq_in - self._n_seq_out - fh")
bad('C29', EN, "np.arange(   t+self._n_seq_in-1+fh,", "np.arange(   t+self._n_seq_in-1+1,")
bad('C29', EN, "for t in tqdm(range(n_seq_in,nt,n_seq_out), desc='inference_imag'):", "for t in tqdm(range(n_seq_in,nt,n_seq_in), desc='inference_imag'):")
bad('C29', EN, "            ub = min(n_seq_in + (n_seq_out * (i + 1)), nt)\n", "            ub = min(n_seq_in + (n_seq_out * (i + 1)), nt - 1)\n")
bad('C29', EN, "            name_tmp = 'imag'+str(idx)\n", "            name_tmp = 'imag0'\n")
bad('C29', EN, "            self.model.load_weights(name_imag)\n", "")
bad('C29', EN, "                input_batch[0,:,:] = states[None,:,:].imag\n", "                input_batch[0,:,:] = states[None,:,:].real\n")
bad('C29', EN, "self._train(data_train.imag, data_valid.imag, name='imag'+str(idx))", "self._train(data_train.imag, data_valid, name='imag'+str(idx))")
bad('C29', EN, "        if nt < n_seq_in:\n", "        if nt <= n_seq_in:\n")
bad('C29', EN, "        if fh < 1: raise", "        if fh < 0: raise")
ok('C29', EB, "                for i in range (data.shape[0]):\n                    vec[i] = max(abs(max_re[i]), abs(min_re[i]))\n", "                vec[:] = np.maximum(np.abs(max_re), np.abs(min_re))\n")
ok('C29', EB, "            for j in range(data.shape[1]):\n                data_out.real[:,j] = data[:,j].real / vec.real\n                data_out.imag[:,j] = data[:,j].imag / vec.imag\n", "            data_out = data.real / vec.real[:,None] + 1j * (data.imag / vec.imag[:,None])\n")
ok('C29', EB, "                max_re = max([max(l) for l in data[:,:].real])\n                min_re = min([min(l) for l in data[:,:].real])\n                for i in range(data.shape[0]):\n                     vec[i] = max(abs(max_re), abs(min_re))\n", "                vec[:] = np.max(np.abs(data))\n")
ok('C29', EN, "        states = np.copy(np.transpose(data))\n", "        states = data.T.copy()\n")
ok('C29', EN, "            x[cnt,:,:] = states[None,idx_x[cnt],:]\n            y[cnt,:] = np.reshape(states[idx_y[cnt],:],\n                [self._n_seq_out*self._n_features])\n", "            x[cnt] = states[t:t+self._n_seq_in]\n            first = t + self._n_seq_in - 1 + fh\n            y[cnt] = states[first:first+self._n_seq_out].reshape(-1)\n")
ok('C29', EN, "        for i in range(cnt):\n            lb = (n_seq_out * i) + n_seq_in\n            ub = min(n_seq_in + (n_seq_out * (i + 1)), nt)\n", "        for i in range(cnt):\n            lb = n_seq_in + n_seq_out * i\n            ub = min(lb + n_seq_out, nt)\n")
ok('C29', EN, "            states[:,:] = np.copy(np.transpose(data_in[:,idx_x[cnt]]))\n            input_batch[0,:,:] = states[None,:,:].real\n", "            input_batch[0] = data_in[:,t-n_seq_in:t].T.real\n")
ok('C29', EB, "                max_re = np.amax(data[:,:],axis=1) * 10\n                min_re = np.amin(data[:,:],axis=1) * 10\n                for i in range (data.shape[0]):\n                    vec[i] = max(abs(max_re[i]), abs(min_re[i]))\n", "                vec = 10 * np.max(np.abs(data), axis=1)\n")
ok('C29', EB, "                max_im = max([max(l) for l in data[:,:].imag])\n", "                max_im = data.imag.max()\n")
ok('C29', EB, "                for i in range(data.shape[0]):\n                     vec[i] = max(abs(max_re), abs(min_re))\n", "                vec = np.full(data.shape[0], max(abs(max_re), abs(min_re)))\n")
ok('C29', EB, "        data_out = np.zeros_like(data)\n        if self._data_type.lower() == 'real':\n            for j in range(data.shape[1]):\n                data_out[:,j]= data[:,j] / vec.real\n", "        data_out = np.zeros_like(data)\n        if self._data_type.lower() == 'real':\n            for i in range(data.shape[0]):\n                data_out[i,:] = data[i,:] / vec[i].real\n")
ok('C29', EN, "        coeffs[:,:n_seq_in] = data_in[:,:n_seq_in]\n        for i in range(cnt):\n", "        coeffs[:,0:n_seq_in] = data_in[:,0:n_seq_in]\n        for i, _ in enumerate(range(n_seq_in,nt,n_seq_out)):\n")
ok('C29', EN, "        if nt < n_seq_in:\n            raise ValueError(self._network.lower(), 'data input error.')\n", "        if not nt >= n_seq_in:\n            raise ValueError(self._network.lower(), 'data input error.')\n")
ok('C29', EN, "            x[cnt,:,:] = states[None,idx_x[cnt],:]\n            y[cnt,:] =", "            x[t,:,:] = data[:,t:t+self._n_seq_in].T\n            y[t,:] =")

# C35 orthogonality check
bad('C35', SU, "    O = phir1.conj().T @ (weights * phir2)\n", "    O = phir1.T @ (weights * phir2)\n")
bad('C35', SU, "    O = phir1.conj().T @ (weights * phir2)\n", "    O = phir1.conj().T @ phir2\n")
bad('C35', SU, "    O = phir1.conj().T @ (weights * phir2)\n", "    O = phir1.T @ (weights * phir2.conj())\n")
bad('C35', SU, "    O = phir1.conj().T @ (weights * phir2)\n", "    O = phir1.conj().T @ (np.sqrt(weights) * phir2)\n")
bad('C35', SU, "    O = utils_par.allreduce(data=O, comm=comm)\n    tol = 2e-6\n", "    tol = 2e-6\n")
bad('C35', SU, "    tol = 2e-6\n", "    tol = 2e-5\n")
bad('C35', SU, "        ortho_check = np.abs(O - 1) < tol\n", "        ortho_check = np.abs(O) - 1 < tol\n")
bad('C35', SU, "        ortho_check = np.abs(O) < tol\n", "        ortho_check = np.abs(O.real) < tol\n")
bad('C35', SU, "        ortho_check = np.abs(O) < tol\n", "        ortho_check = O.real < tol\n")
bad('C35', SU, "        np.atleast_1d(freq_idx), max_axis, xsize, n_modes_save, dt_complex,\n        comm)\n    phir1", "        np.atleast_1d(mode_idx1), max_axis, xsize, n_modes_save, dt_complex,\n        comm)\n    phir1")
bad('C35', SU, "    if mode_idx1 == mode_idx2:\n", "    if mode_idx1 == freq_idx:\n")
ok('C35', SU, "    O = phir1.conj().T @ (weights * phir2)\n", "    O = (weights * phir1).conj().T @ phir2\n")
ok('C35', SU, "    O = phir1.conj().T @ (weights * phir2)\n", "    O = np.matmul(np.conj(phir1).T, np.multiply(weights, phir2))\n")
ok('C35', SU, "    O = phir1.conj().T @ (weights * phir2)\n", "    O = np.dot((phir1.conj() * weights).T, phir2)\n")
ok('C35', SU, "    O = phir1.conj().T @ (weights * phir2)\n", "    O = np.vdot(phir1, weights * phir2)\n")
ok('C35', SU, "    O = phir1.conj().T @ (weights * phir2)\n", "    O = np.sum(phir1.conj() * weights * phir2)\n")
ok('C35', SU, "    O = phir1.conj().T @ (weights * phir2)\n", "    O = (phir1.conj() * weights * phir2).sum()\n")
ok('C35', SU, "    O = phir1.conj().T @ (weights * phir2)\n", "    O = np.einsum('ik,ik->', phir1.conj() * weights, phir2)\n")
ok('C35', SU, "    O = phir1.conj().T @ (weights * phir2)\n", "    O = np.einsum('ij,ik->jk', phir1.conj(), weights * phir2)\n")
ok('C35', SU, "    if mode_idx1 == mode_idx2:\n        ortho_check = np.abs(O - 1) < tol\n    else:\n        ortho_check = np.abs(O) < tol\n",
   "    expected = 1 if mode_idx1 == mode_idx2 else 0\n    ortho_check = np.abs(O - expected) < tol\n")
ok('C35', SU, "    if mode_idx1 == mode_idx2:\n        ortho_check = np.abs(O - 1) < tol\n    else:\n        ortho_check = np.abs(O) < tol\n",
   "    deviation = np.abs(O - 1) if mode_idx1 == mode_idx2 else np.abs(O)\n    ortho_check = deviation < tol\n")
ok('C35', SU, "    if mode_idx1 == mode_idx2:\n        ortho_check = np.abs(O - 1) < tol\n    else:\n        ortho_check = np.abs(O) < tol\n",
   "    if mode_idx1 != mode_idx2:\n        ortho_check = tol > abs(O)\n    else:\n        ortho_check = tol > abs(1 - O)\n")
ok('C35', SU, "    weights = np.reshape(weights, [xsize, 1])\n\n    ## get modes\n    phir = _get_modes(results_dir, n_freq,\n        np.atleast_1d(freq_idx)", "    weights = weights.reshape(-1, 1)\n\n    ## get modes\n    phir = _get_modes(results_dir, n_freq,\n        np.atleast_1d(freq_idx)")
ok('C35', SU, "    weights = np.reshape(weights, [xsize, 1])\n\n    ## get modes\n    phir = _get_modes(results_dir, n_freq,\n        np.atleast_1d(freq_idx)", "    weights = weights.ravel()[:, None]\n\n    ## get modes\n    phir = _get_modes(results_dir, n_freq,\n        np.atleast_1d(freq_idx)")
ok('C35', SU, "    tol = 2e-6\n", "    tol = 2e-6\n    if mode_idx1 == mode_idx2:\n        pass\n")

# C37 methods of a fit
bad('C37', SB, "            vars_idx=vars_idx, modes_idx=modes_idx, x1=x1, x2=x2, x3=x3,\n", "            vars_idx=vars_idx, modes_idx=modes_idx, x1=x1, x2=x3, x3=x2,\n")
bad('C37', SB, "            self.eigs, freq=freq, title=title, xticks=xticks, yticks=yticks,\n            figsize", "            self.eigs, freq=freq, title=title, xticks=yticks, yticks=xticks,\n            figsize")
bad('C37', SB, "            slice_dim=slice_dim, slice_id=slice_id, fftshift=fftshift,\n", "            slice_dim=slice_dim, fftshift=fftshift,\n")
bad('C37', SB, "                fftshift=fftshift, imaginary=imaginary, plot_max=plot_max,\n", "                fftshift=fftshift, imaginary=fftshift, plot_max=plot_max,\n")
bad('C37', SB, "        data = self.get_data(data, t_0=0, t_end=max_time_idx+1)\n", "        data = self.get_data(data, t_0=0, t_end=max_time_idx)\n")
bad('C37', SB, "        max_time_idx = np.max(time_idx)\n", "        max_time_idx = time_idx[-1]\n")
bad('C37', SB, "        d = data[t_0:t_end,...]\n        if self._nv == 1", "        d = data[t_0:t_end-1,...]\n        if self._nv == 1")
bad('C37', SB, "            tol=tol, svd=svd, T_lb=T_lb, T_ub=T_ub, comm=self._comm)\n", "            tol=tol, svd=svd, T_lb=T_ub, T_ub=T_lb, comm=self._comm)\n")
bad('C37', SB, "            tol=tol, svd=svd, T_lb=T_lb, T_ub=T_ub, comm=self._comm)\n", "            tol=tol, T_lb=T_lb, T_ub=T_ub, comm=self._comm)\n")
bad('C37', SB, "            data, results_dir=self._savedir_sim, modes_idx=modes_idx,\n", "            data, results_dir=self._savedir, modes_idx=modes_idx,\n")
bad('C37', SB, "coeffs_dir=self._coeffs_dir, time_idx=time_idx, comm=self._comm)\n", "coeffs_dir=self._savedir_sim, time_idx=time_idx, comm=self._comm)\n")
bad('C37', PBA, "                coeffs_dir=self._coeffs_dir, coeffs=coeffs, time_idx=time_idx,\n                comm=self._comm)\n", "                coeffs_dir=self._coeffs_dir, time_idx=time_idx,\n                comm=self._comm)\n")
bad('C37', PBA, "            data, results_dir=self._savedir_sim, modes_idx=modes_idx,\n            comm=self._comm)\n", "            data, results_dir=self._savedir_sim, modes_idx=modes_idx)\n")
bad('C37', SB, "        if freq is None: freq = self.freq\n        post.plot_eigs_vs_period(\n", "        freq = self.freq\n        post.plot_eigs_vs_period(\n")
bad('C37', SB, "            vars_idx=vars_idx, title=title, figsize=figsize,\n            path=self.savedir_sim, filename=filename)\n", "            vars_idx=vars_idx, title=title, figsize=figsize,\n            path=self.savedir_sim)\n")
ok('C37', SB, "        post.plot_eigs(self.eigs, title=title, figsize=figsize,\n            show_axes=show_axes, equal_axes=equal_axes,\n            path=self.savedir_sim, filename=filename)\n",
   "        kw = dict(title=title, figsize=figsize, show_axes=show_axes)\n        kw['equal_axes'] = equal_axes\n        post.plot_eigs(self._eigs, path=self._savedir_sim, filename=filename, **kw)\n")
ok('C37', SB, "        if freq is None: freq = self.freq\n        post.plot_eigs_vs_period(\n", "        post.plot_eigs_vs_period(\n", ) if False else None
ok('C37', SB, "        if self._comm is None or self._comm.rank == 0:\n            post.plot_2d_modes_at_frequency(\n", "        root = self._comm is None or self._comm.rank == 0\n        if root:\n            post.plot_2d_modes_at_frequency(\n")
ok('C37', SB, "        data = self.get_data(data, t_0=0, t_end=max_time_idx+1)\n", "        data = self.get_data(data)\n")
ok('C37', SB, "        max_time_idx = np.max(time_idx)\n        data = self.get_data(data, t_0=0, t_end=max_time_idx+1)\n", "        last = max(time_idx)\n        data = self.get_data(data, t_end=last + 1)\n")
ok('C37', SB, "        d = data[t_0:t_end,...]\n        if self._nv == 1 and (d.ndim != self._xdim + 2):\n            d = d[...,np.newaxis]\n        return d\n",
   "        d = data[t_0:t_end]\n        no_var_axis = d.ndim == self._xdim + 1\n        if self._nv == 1 and no_var_axis:\n            d = np.expand_dims(d, -1)\n        return d\n") 
ok('C37', SB, "        file_coeffs, coeffs_dir = utils_spod.compute_coeffs_op(\\\n            data, results_dir=self._savedir_sim, modes_idx=modes_idx,\n            tol=tol, svd=svd, T_lb=T_lb, T_ub=T_ub, comm=self._comm)\n        self._file_coeffs = file_coeffs\n        self._coeffs_dir = coeffs_dir\n        return file_coeffs, coeffs_dir\n",
   "        out = utils_spod.compute_coeffs_op(\n            data=data, results_dir=self._savedir_sim, modes_idx=modes_idx,\n            comm=self._comm, T_ub=T_ub, T_lb=T_lb, svd=svd, tol=tol)\n        self._file_coeffs, self._coeffs_dir = out\n        return out\n")
ok('C37', SB, "        if not hasattr(self, '_file_coeffs'):\n            raise ValueError(\n                'Coeffs not computed; you need to run `compute_coeffs_op`.')\n        else:\n            file_recons, coeffs_dir = utils_spod.compute_reconstruction(\\\n                coeffs_dir=self._coeffs_dir, time_idx=time_idx, comm=self._comm)\n",
   "        if not hasattr(self, '_coeffs_dir'):\n            raise ValueError(\n                'Coeffs not computed; you need to run `compute_coeffs_op`.')\n        file_recons, coeffs_dir = utils_spod.compute_reconstruction(\n            self._coeffs_dir, time_idx, comm=self._comm)\n")
ok('C37', SB, "        post.plot_data_tracers(\n            X=data, coords_list=coords_list, x=x, time_limits=time_limits,\n", "        plotter = post.plot_data_tracers\n        plotter(\n            data, coords_list, x, time_limits,\n")

# C38 pictures
bad('C38', PP, "            x_time = X[(slice(time_limits[0],time_limits[-1]),) \\\n", "            x_time = X[(slice(0,time_limits[-1]-time_limits[0]),) \\\n")
bad('C38', PP, "                tmp_name = f'{basename}_coords{coords}_var{var_id}{ext}'\n            _save_show_plots(tmp_name, path, plt)\n\ndef generate", "                tmp_name = f'{basename}_coords{coords}{ext}'\n            _save_show_plots(tmp_name, path, plt)\n\ndef generate")
bad('C38', PP, "        plt.plot(coeffs[ci,:], 'k-')\n", "        plt.plot(coeffs[:,ci], 'k-')\n")
bad('C38', PP, "    plt.plot(series2, color='gray')\n", "    plt.plot(series1, color='gray')\n")
bad('C38', PP, "    plt.plot(val_loss, color = 'gray')\n", "    plt.plot(val_loss[1:], color = 'gray')\n")
bad('C38', PP, "                    x1, x2, np.imag(mode),\n", "                    x1, x2, np.real(mode),\n")
bad('C38', PP, "                    x1, x2, np.real(mode),\n                    vmin=-np.abs(mode).max()*1.,\n                    vmax= np.abs(mode).max()*1.,\n                    origin=origin)\n                if plot_max:", "                    x1, x2, np.abs(mode),\n                    vmin=-np.abs(mode).max()*1.,\n                    vmax= np.abs(mode).max()*1.,\n                    origin=origin)\n                if plot_max:")
bad('C38', PP, "            mode = np.squeeze(modes[:,:,var_id,mode_id])\n\n            if shift180", "            mode = np.squeeze(modes[:,:,mode_id,var_id])\n\n            if shift180")
bad('C38', PP, "            if x1_tmp.shape[0] != mode.shape[1] or \\\n               x2_tmp.shape[0] != mode.shape[0]:\n                mode = mode.T\n            mode = mode[limits_x2,limits_x1]\n", "            if x1_tmp.shape[0] != mode.shape[1] or \\\n               x2_tmp.shape[0] != mode.shape[0]:\n                mode = mode.reshape(mode.shape[1], mode.shape[0])\n            mode = mode[limits_x2,limits_x1]\n")
bad('C38', PP, "    freq_val, freq_idx = find_nearest_freq(freq_req=freq_req, freq=freq)\n\n    # read modes from file, unless they have been passed\n    if modes is None:\n        modes = get_modes_at_freq(results_path=results_path, freq_idx=freq_idx)\n", "    freq_val, freq_idx = find_nearest_freq(freq_req=freq_req, freq=freq)\n\n    # read modes from file, unless they have been passed\n    if modes is None:\n        modes = get_modes_at_freq(results_path=results_path, freq_idx=freq_idx-1)\n")
bad('C38', PP, "            elif slice_dim == 2: mode = mode_3d[:,:,slice_id]\n", "            elif slice_dim == 2: mode = mode_3d[:,:,0]\n")
bad('C38', PP, "            elif slice_dim == 1: mode = mode_3d[:,slice_id,:]\n", "            elif slice_dim == 1: mode = mode_3d[:,:,slice_id]\n")
bad('C38', PP, "            mode_3d = np.squeeze(modes[:,:,:,var_id,mode_id])\n", "            mode_3d = np.squeeze(modes[:,:,:,vars_idx[0],mode_id])\n")
bad('C38', PP, "        ax.plot(xx, np.real(eigs[:,k]), '-', color=color, label='Eigenvalues')\n", "        ax.plot(freq, np.real(eigs[:,k]), '-', color=color, label='Eigenvalues')\n")
bad('C38', PP, "        ax.plot(freq, np.real(eigs[:,k]), '-',\n", "        ax.plot(freq, np.real(eigs[k,:]), '-',\n")
ok('C38', PP, "        plt.plot(coeffs[ci,:], 'k-')\n", "        series = coeffs[ci]\n        ax = plt.gca()\n        ax.plot(np.arange(series.shape[0]), series, 'k-')\n")
ok('C38', PP, "    for k in range(0,eigs.shape[1]):\n        color = (ratio*k,ratio*k,ratio*k)\n        if ratio*k >=0.95:\n            color = (0.96,0.96, 0.96)\n        ax.plot(freq, np.real(eigs[:,k]), '-',\n                color=color, label='Eigenvalues')\n", "    for k, e in enumerate(eigs.T):\n        grey = ratio * k\n        color = (0.96,0.96,0.96) if grey >= 0.95 else (grey,)*3\n        ax.plot(freq, e.real, '-', color=color, label='Eigenvalues')\n")
ok('C38', PP, "        ax.plot(xx, np.real(eigs[:,k]), '-', color=color, label='Eigenvalues')\n", "        ax.plot(xx, eigs[..., k].real, color=color, linestyle='-', label='Eigenvalues')\n")
ok('C38', PP, "            if slice_dim == 0: mode = mode_3d[slice_id,:,:]\n            elif slice_dim == 1: mode = mode_3d[:,slice_id,:]\n            elif slice_dim == 2: mode = mode_3d[:,:,slice_id]\n", "            if slice_dim in (0, 1, 2):\n                mode = np.take(mode_3d, slice_id, axis=slice_dim)\n")
ok('C38', PP, "            mode = np.squeeze(modes[:,:,var_id,mode_id])\n\n            if shift180", "            mode = modes[..., var_id, mode_id]\n\n            if shift180")
ok('C38', PP, "            x_time = X[(slice(time_limits[0],time_limits[-1]),) \\\n", "            first, last = time_limits[0], time_limits[-1]\n            x_time = X[(slice(first, last),) \\\n")
ok('C38', PP, "    plt.plot(series2, color='gray')\n", "    plt.gca().plot(series2, color='gray')\n")
ok('C38', PP, "    freq_val, freq_idx = find_nearest_freq(freq_req=freq_req, freq=freq)\n\n    # read modes from file, unless they have been passed\n    if modes is None:\n        modes = get_modes_at_freq(results_path=results_path, freq_idx=freq_idx)\n", "    _, f_id = find_nearest_freq(freq_req, freq)\n\n    # read modes from file, unless they have been passed\n    modes = get_modes_at_freq(results_path, f_id) if modes is None else modes\n    freq_val = freq[f_id]\n")
ok('C38', PP, "            if x1_tmp.shape[0] != mode.shape[1] or \\\n               x2_tmp.shape[0] != mode.shape[0]:\n                mode = mode.T\n            mode = mode[limits_x2,limits_x1]\n", "            if (mode.shape[0], mode.shape[1]) != (x2_tmp.shape[0], x1_tmp.shape[0]):\n                mode = np.transpose(mode)\n            mode = mode[limits_x2,:][:,limits_x1]\n")
ok('C38', PP, "                    x1, x2, np.imag(mode),\n", "                    x1, x2, mode.imag,\n")
bad('C38', PP, "    if shift180:\n        x1 = x1 - 180\n", "    if shift180:\n        x1 = x1[::-1] - 180\n")
bad('C38', PP, "            mode = mode[limits_x2,limits_x1]\n", "            mode = mode[limits_x1,limits_x2]\n")
bad('C38', PP, "            if mode_id >= modes.shape[-1]:\n                continue\n", "            if mode_id >= modes.shape[-1]:\n                mode_id = 0\n")
bad('C38', PP, "    time_range = time_range[0::sampling]\n", "    time_range = time_range[0:-1:sampling]\n")
ok('C38', PP, "            if shift180:\n                mode = np.hstack((mode[:,mode.shape[1]//2:], mode[:,:mode.shape[1]//2]))\n", "            if shift180:\n                half = mode.shape[1] // 2\n                mode = np.concatenate([mode[:,half:], mode[:,:half]], axis=1)\n")
ok('C38', PP, "            if shift180:\n                mode = np.hstack((mode[:,mode.shape[1]//2:], mode[:,:mode.shape[1]//2]))\n", "            if shift180:\n                mode = np.roll(mode, -(mode.shape[1]//2), axis=1)\n")
ok('C38', PP, "    time_range = list(range(time_limits[0],time_limits[-1]))\n    time_range = time_range[0::sampling]\n", "    time_range = range(time_limits[0], time_limits[-1], sampling)\n")
ok('C38', PP, "            if mode_id >= modes.shape[-1]:\n                continue\n", "            available = modes.shape[-1]\n            if not mode_id < available:\n                continue\n")
ok('C38', PP, "            x = np.real(X[time_id,...,var_id])\n", "            snapshot = X[time_id]\n            x = snapshot[...,var_id].real\n")
ok('C38', PP, "            if (x1.shape[0] != x.shape[1]) or (x2.shape[0] != x.shape[0]):\n                x = x.T\n", "            matches = x.shape == (len(x2), len(x1))\n            if not matches:\n                x = np.swapaxes(x, 0, 1)\n")

# C28 files
IO = 'pyspod/utils/io.py'
bad('C28', IO, "    if not format:\n        _, format = splitext(data_file)\n", "    _, ext = splitext(data_file)\n    format = ext or format\n")
bad('C28', IO, "    format = format.lower()\n    if format", "    if format")
bad('C28', IO, "        _, format = splitext(data_file)\n", "        format = '.' + data_file.split('.')[1]\n")
bad('C28', IO, "            for k, v in f.items():\n                d[k] = np.array(v)\n", "            for k, v in f.items():\n                d[k] = np.array(v).T\n")
bad('C28', IO, "        raise ValueError(format, ' format not supported')\n    return d\n", "        d = np.load(data_file)\n    return d\n")
bad('C28', IO, "        params = {**params_req, **params_opt}\n", "        params = {**{k: None for k in params_opt}, **params_req}\n")
bad('C28', IO, "        params[k] = v\n    return params\n", "        params.setdefault(k, v)\n        if i > 3: break\n    return params\n")
bad('C28', IO, "    f, k = _check_keys(params_req, keys_r)\n", "    f, k = _check_keys(params_req, keys_r)\n    params_req = {q: params_req[q] for q in keys_r if q in params_req}\n")
bad('C28', IO, "    elif format == '.mat' or format == 'mat':", "    elif format == '.mat' or data_file.endswith('mat'):")
ok('C28', IO, "            d = dict()\n            for k, v in f.items():\n                d[k] = np.array(v)\n", "            d = {k: np.array(v) for k, v in f.items()}\n")
ok('C28', IO, "            d = dict()\n            for k, v in f.items():\n                d[k] = np.array(v)\n", "            d = {}\n            for name in f.keys():\n                d[name] = f[name][()]\n")
ok('C28', IO, "            d = dict()\n            for k, v in f.items():\n                d[k] = np.array(v)\n", "            d = dict((k, np.asarray(v)) for k, v in f.items())\n")
ok('C28', IO, "    if format == '.npy' or format == 'npy':\n        d = np.load(data_file)\n    elif format == '.nc' or format == 'nc':\n", "    kind = format.lstrip('.')\n    if kind == 'npy':\n        d = np.load(data_file)\n    elif kind in ('nc',):\n")
ok('C28', IO, "    if not format:\n        _, format = splitext(data_file)\n", "    format = format or splitext(data_file)[1]\n")
ok('C28', IO, "    if not format:\n        _, format = splitext(data_file)\n", "    if not format:\n        format = os.path.splitext(data_file)[-1]\n")
ok('C28', IO, "    if format == '.npy' or format == 'npy':\n        d = np.load(data_file)\n", "    if format in ('.npy', 'npy'):\n        return np.load(data_file)\n")
ok('C28', IO, "    elif format == '.nc' or format == 'nc':\n        d = xr.open_dataset(data_file)\n", "    elif format == '.nc' or format == 'nc':\n        return xr.open_dataset(filename_or_obj=data_file)\n")
ok('C28', IO, "    for i,d in enumerate(l):\n        k = list(d.keys())[0]\n        v = d[k]\n        params[k] = v\n", "    for d in l:\n        k, v = next(iter(d.items()))\n        params[k] = v\n")
ok('C28', IO, "    for i,d in enumerate(l):\n        k = list(d.keys())[0]\n        v = d[k]\n        params[k] = v\n", "    for d in l:\n        params.update(d)\n")
ok('C28', IO, "        l_opt = l['optional']\n        params_opt = _parse_yaml(l_opt)\n        params = {**params_req, **params_opt}\n", "        params = dict(params_req)\n        params.update(_parse_yaml(l['optional']))\n")
ok('C28', IO, "    f, _ = _check_keys(l, 'optional')\n    if f:\n        l_opt = l['optional']\n        params_opt = _parse_yaml(l_opt)\n        params = {**params_req, **params_opt}\n    else:\n        params = params_req\n    return params\n", "    params_opt = _parse_yaml(l.get('optional', []))\n    return {**params_req, **params_opt}\n")
ok('C28', IO, "        l_opt = l['optional']\n        params_opt = _parse_yaml(l_opt)\n        params = {**params_req, **params_opt}\n", "        params_opt = _parse_yaml(l['optional'])\n        params = params_req | params_opt\n")
ok('C28', IO, "        args = parser.parse_args(['--config_file', parsed_file])\n    else:\n        args = parser.parse_args()\n\n    ## read yaml file\n    with open(args.config_file) as file:\n        l = yaml.load(file, Loader=yaml.FullLoader)\n", "        path = parsed_file\n    else:\n        path = parser.parse_args().config_file\n\n    ## read yaml file\n    with open(path, 'r') as file:\n        l = yaml.safe_load(file)\n")
bad('C28', IO, "        params[k] = v\n    return params\n", "        if v:\n            params[k] = v\n    return params\n")
bad('C28', IO, "        params[k] = v\n    return params\n", "        if v is not None and v is not False:\n            params[k] = v\n    return params\n")
ok('C28', IO, "        params[k] = v\n    return params\n", "        if k not in params:\n            params[k] = v\n        else:\n            params[k] = v\n    return params\n")
ok('C28', IO, "        _, format = splitext(data_file)\n", "        format = os.path.basename(data_file).rpartition('.')[2] if '.' in os.path.basename(data_file) else ''\n")
ok('C28', IO, "        _, format = splitext(data_file)\n", "        format = splitext(os.path.basename(data_file))[1]\n")
bad('C28', IO, "        _, format = splitext(data_file)\n", "        format = '.' + (os.path.basename(data_file) + '.').split('.')[1]\n")
