S = "ais_benchmarks/sampling_methods/"
D = "ais_benchmarks/distributions/"
M = []
H = []


def m(name, props, file, old, new):
    M.append((name, props, file, old, new))


def h(name, props, file, old, new):
    H.append((name, props, file, old, new))


# ---------------------------------------------------------------- counters
m("cnt-lais-mh", "C01", S + "layered_ais.py", "            self._num_pi_evals += 1\n            alpha", "            alpha")
m("cnt-lais-q", "C02", S + "layered_ais.py", "            self._num_q_samples += 1\n            x_hat", "            x_hat")
m("cnt-mh-one", "C01", S + "metropolis_hastings.py", "self._num_pi_evals += 2", "self._num_pi_evals += 1")
m("cnt-rej-acc", "C02", S + "rejection.py", """            self._num_q_samples += len(proposals)
""", "", )
m("cnt-rej-nsamp", "C01", S + "rejection.py", "self._num_pi_evals += len(proposals)", "self._num_pi_evals += n_samples")
m("cnt-nested-live", "C01", S + "nested.py", "self._num_pi_evals += len(self.live_points)", "self._num_pi_evals += 1")
m("cnt-mnested-retry", "C01", S + "multi_nested.py", """            new_value = pdf.prob(new_sample)
            self._num_pi_evals += 1
""", """            new_value = pdf.prob(new_sample)
""")
m("cnt-hid-split", "C01", S + "hi_daisee.py", "self._num_pi_evals += n.N", "self._num_pi_evals += 1")
m("cnt-tp-resample", "C01", S + "tree_pyramid.py", "self._num_pi_evals += len(samples)", "self._num_pi_evals += 1")
m("cnt-tp-resampleq", "C02", S + "tree_pyramid.py", "self._num_q_samples += len(samples)", "self._num_q_samples += self.parallel_samples")
m("cnt-tp-root", "C02", S + "tree_pyramid.py", "            self._num_q_samples += 1\n", "")
m("cnt-base-sample", "C02", S + "base.py", "        self._num_q_samples += n_samples\n", "")
m("cnt-base-sample1", "C02", S + "base.py", "self._num_q_samples += n_samples", "self._num_q_samples += 1")
m("cnt-reset", "C01", S + "base.py", "    def reset(self):\n        self._num_pi_evals = 0\n", "    def reset(self):\n")
m("cnt-stats", "C01", S + "base.py", '"target_evals": self._num_pi_evals', '"target_evals": self._num_q_evals')
m("cnt-mpmc-k", "C01", S + "m_pmc.py", "                self._num_pi_evals += 1\n", "            self._num_pi_evals += 1\n" if 0 else "                self._num_pi_evals += self.N\n")
m("cnt-dm-skip", "C01", S + "dm_ais.py", "                w = target_d.prob(s) / self.prob(s)\n", "                w = np.exp(target_d.log_prob(s) - self.log_prob(s)) if target_d.prob(s) > 0 else target_d.prob(s)\n")
h("cnt-h-dm-batch", "C01,C02", S + "dm_ais.py", """                for _ in range(self.K):
                    s = q.sample()[0]
                    self._num_q_samples += 1
                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s.reshape(1, -1)
""", """                s = q.sample(self.K)
                self._num_q_samples += len(s)
                new_samples = np.vstack((new_samples, s)) if new_samples.size else s
""")
h("cnt-h-dm-after", "C01", S + "dm_ais.py", ["                self._num_pi_evals += 1\n", "            # Adaptation\n"], ["", "            self._num_pi_evals += len(new_samples)\n            # Adaptation\n"])
h("cnt-h-nested-helper", "C01,C02", S + "nested.py", ["""            new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)
            self._num_q_samples += 1
            new_value = pdf.prob(new_sample)
            self._num_pi_evals += 1
            elapsed_time""", "    def get_NESS"], ["""            new_sample, new_value = self._draw(sample, pdf)
            elapsed_time""", """    def _draw(self, sample, pdf):
        point = self.proposal_dist.sample() + sample
        self._num_q_samples += 1
        point = np.clip(point, self.space_min, self.space_max)
        self._num_pi_evals += len(point)
        return point, pdf.prob(point)

    def get_NESS"""])
h("cnt-h-mh-two", "C01", S + "metropolis_hastings.py", ["self._num_pi_evals += 2", "            pi_x_old ="], ["self._num_pi_evals += 1", "            self._num_pi_evals += 1\n            pi_x_old ="])

# ---------------------------------------------------------------- weights
m("w-dm-own", "C06", S + "dm_ais.py", "target_d.prob(s) / self.prob(s)", "target_d.prob(s) / self.proposals[0].prob(s)")
m("w-dm-inv", "C06", S + "dm_ais.py", "target_d.prob(s) / self.prob(s)", "self.prob(s) / target_d.prob(s)")
m("w-dm-log", "C06", S + "dm_ais.py", "target_d.prob(s) / self.prob(s)", "target_d.log_prob(s) - self.log_prob(s)")
m("w-lais-adapt", "C06", S + "layered_ais.py", ["            # Adaptation\n            self.resample(target_d)\n", "            # Weight samples\n"], ["", "            self.resample(target_d)\n            # Weight samples\n"])
m("w-mpmc-q", "C06", S + "m_pmc.py", "q_x = self.log_prob(new_samples[i])", "q_x = self.proposals[i % self.N].log_prob(new_samples[i])")
m("w-mpmc-idx", "C06,C03", S + "m_pmc.py", "pi_x = target_d.log_prob(new_samples[i])", "pi_x = target_d.log_prob(new_samples[i - 1])")
m("w-mpmc-norm", "C06", S + "m_pmc.py", "new_weights = new_weights / new_weights.sum()", "new_weights = new_weights / new_weights.max()")
m("w-dm-sqrt", "C06", S + "dm_ais.py", "w = target_d.prob(s) / self.prob(s)", "w = np.sqrt(target_d.prob(s)) / self.prob(s)")
m("w-rej-eq", "C06", S + "rejection.py", "self.weights = np.ones_like(self.weights) * 1 / len(self.weights)", "self.weights = self.weights / np.sum(self.weights)")
m("w-mh-eq", "C06", S + "metropolis_hastings.py", "self.weights = np.ones(len(self.samples)) * 1 / len(self.samples)", "self.weights = np.ones(len(self.samples)) * 1 / n_samples")
m("w-nest-shell", "C06", S + "nested.py", "W = np.array([X[i - 1] - X[i] for i in range(1, len(self.samples))])", "W = np.array([X[i] - X[i - 1] for i in range(1, len(self.samples))])")
m("w-nest-x", "C06", S + "nested.py", "np.exp(-i / self.N)", "np.exp(-i / len(self.samples))")
m("w-mnest-z", "C06", S + "multi_nested.py", "Z = np.sum(self.L * W)", "Z = np.sum(self.L) * np.sum(W)")
m("w-dm-ret", "C06", S + "dm_ais.py", "return self.samples, self.weights / self.weights.sum()", "return self.samples, self.weights / len(self.weights)")
m("w-lais-ret", "C06", S + "layered_ais.py", "self.weights / self.weights.sum()", "self.weights / self.weights.max()")
m("w-tp-live", "C06", S + "tree_pyramid.py", "node.weigh(target_d, self.model)", "node.weigh(target_d, self)")
m("w-tp-model", "C06", S + "tree_pyramid.py", "node.weigh(target_d, node.sampler)", "node.weigh(target_d, self.model)")
m("w-tp-center", "C06", S + "tree_pyramid.py", "importance = importance_d.prob(self.coords)", "importance = importance_d.prob(self.center)")
m("w-tp-jac", "C06", S + "tree_pyramid.py", "/ ((2 * radii) ** self.T.ndims)\n        self.T.samples", "\n        self.T.samples")
m("w-tp-haar", "C06", S + "tree_pyramid.py", "proposal_probs = 1 / ((2 * radii) ** self.T.ndims)", "proposal_probs = 1 / (radii ** self.T.ndims)")
m("w-tp-order", "C06", S + "tree_pyramid.py", "                node.sample(node.sampler)\n                self.T.samples", "                node.sample(self.model)\n                self.T.samples")
m("w-hid-q", "C06", S + "hi_daisee.py", "w_i = target_d.prob(x_i) / n.prob(x_i)", "w_i = target_d.prob(x_i) / self.model.prob(x_i)")
m("w-hid-split", "C06", S + "hi_daisee.py", "w = target_d.prob(x) / n_right.prob(x)", "w = target_d.prob(x) / n.prob(x)")
m("w-hid-draw", "C06", S + "hi_daisee.py", "x_i = n.sample()", "x_i = self.model.sample()")
h("w-h-hid", "C06", S + "hi_daisee.py", "w_i = target_d.prob(x_i) / n.prob(x_i)", "w_i = np.exp(target_d.log_prob(x_i) - n.log_prob(x_i))")
h("w-h-tp", "C06", S + "tree_pyramid.py", "self.T.weights[self.T.leaves_idx] = probs.reshape(-1) / proposal_probs.reshape(-1)", "w = probs.flatten() / proposal_probs.flatten()\n        self.T.weights[self.T.leaves_idx] = w")
h("w-h-dm-log", "C06,C03", S + "dm_ais.py", "w = target_d.prob(s) / self.prob(s)", "log_w = target_d.log_prob(s) - self.log_prob(s)\n                w = np.exp(log_w)")
h("w-h-dm-batch", "C06,C03", S + "dm_ais.py", """            new_weights = t_tensor([])
            for s in new_samples:
                w = target_d.prob(s) / self.prob(s)
                self._num_pi_evals += 1
                new_weights = np.concatenate((new_weights, w.reshape(-1))) if new_weights.size else w.reshape(-1)
""", """            new_weights = (target_d.prob(new_samples) / self.prob(new_samples)).reshape(-1)
            self._num_pi_evals += len(new_samples)
""")
h("w-h-mpmc", "C06,C03,C15", S + "m_pmc.py", "new_weights[i] = np.exp(pi_x - q_x)", "new_weights[i] = np.exp(pi_x) / np.exp(q_x)")
h("w-h-nest", "C06,C03", S + "nested.py", """        X = np.array([np.exp(-i / self.N) for i in range(len(self.samples))])
        W = np.array([X[i - 1] - X[i] for i in range(1, len(self.samples))])
        W = np.concatenate((np.array([X[0]]), W))
        Z = np.sum(self.L * W)

        self.weights = (self.L * W) / Z
""", """        X = np.exp(-np.arange(len(self.samples)) / self.N)
        shells = np.concatenate((X[:1], X[:-1] - X[1:]))
        mass = self.L * shells
        self.weights = mass / np.sum(mass)
""")
h("w-h-rej", "C06,C03", S + "rejection.py", "self.weights = np.ones_like(self.weights) * 1 / len(self.weights)", "n = len(self.samples)\n        self.weights = np.full(n, 1.0 / n)")

# ---------------------------------------------------------------- pairing
m("p-dm-order", "C03", S + "dm_ais.py", "np.concatenate((self.weights, new_weights))", "np.concatenate((new_weights, self.weights))")
h("p-lais-vstack", "C03", S + "layered_ais.py", "np.vstack((new_samples, s))", "np.vstack((s, new_samples))" )
m("p-lais-vstack2", "C03", S + "layered_ais.py", "new_weights = np.concatenate((new_weights, w.reshape(-1)))", "new_weights = np.concatenate((w.reshape(-1), new_weights))")
m("p-mpmc-first", "C03", S + "m_pmc.py", "self.weights = np.concatenate((self.weights, new_weights)) if self.weights.size else new_weights", "self.weights = np.concatenate((self.weights, new_weights)) if self.weights.size else np.append(new_weights, 0.0)")
m("p-mpmc-sort", "C03", S + "m_pmc.py", "            new_weights = new_weights / new_weights.sum()\n", "            new_weights = new_weights[::-1] / new_weights.sum()\n")
m("p-mh-n", "C03", S + "metropolis_hastings.py", "np.ones(len(self.samples)) * 1", "np.ones(n_samples) * 1")
m("p-rej-n", "C03", S + "rejection.py", "acceptance_ratio[accept_idx].reshape(-1))) \\\n", "acceptance_ratio.reshape(-1))) \\\n")
m("p-nested-ret", "C03", S + "nested.py", "        self._update_model()\n        return self.samples, self.weights", "        self._update_model()\n        return self.samples[-n_samples:], self.weights[:n_samples]")
m("p-mnested-L", "C03,C16", S + "multi_nested.py", "np.concatenate((self.L, np.array([Lmin]))) if self.L.size", "np.concatenate((np.array([Lmin]), self.L)) if self.L.size")
m("p-hid-add", "C03,C11", S + "hi_daisee.py", "np.concatenate((self.weights, w)) if self.weights.size else w\n", "np.concatenate((w, self.weights)) if self.weights.size else w\n")
m("p-hid-get", "C03", S + "hi_daisee.py", "weights.extend(self.T.nodes[n_idx].weights)", "weights = list(self.T.nodes[n_idx].weights) + weights")
m("p-tp-ret", "C03", S + "tree_pyramid.py", "return samples[weights > 0], weights[weights > 0]", "return samples, weights[weights > 0]")
m("p-tp-ret2", "C03", S + "tree_pyramid.py", "return self.T.samples[self.T.leaves_idx], self.T.weights[self.T.leaves_idx]", "return self.T.samples, self.T.weights[self.T.leaves_idx]")
m("p-tp-idx", "C03", S + "tree_pyramid.py", "self.T.weights[node.node_idx] = node.weight\n\n            # If", "self.T.weights[node.leaf_idx] = node.weight\n\n            # If")
m("p-tp-hist", "C03", S + "tree_pyramid.py", "(self.weight_hist, self.weight))", "(self.weight, self.weight_hist))")
m("p-tp-weights", "C10", S + "tree_pyramid.py", "np.concatenate((self.weights, np.zeros(len(new_nodes))))", "np.concatenate((np.zeros(len(new_nodes)), self.weights))")
h("p-h-dm2", "C03,C06,C07,C08,C15", S + "dm_ais.py", ["            self.samples = np.concatenate((self.samples, new_samples)) if self.samples.size else new_samples\n            self.weights = np.concatenate((self.weights, new_weights)) if self.weights.size else new_weights\n", "    def _update_model(self):"], ["            self._store(new_samples, new_weights)\n", "    def _store(self, x, w):\n        if not self.samples.size:\n            self.samples, self.weights = x, w\n            return\n        self.samples = np.vstack((self.samples, x))\n        self.weights = np.hstack((self.weights, w))\n\n    def _update_model(self):"])
h("p-h-rej", "C03,C06,C07", S + "rejection.py", "            accept_idx = (acceptance_ratio > acceptance_prob).reshape(-1)\n", "            accept_idx = (acceptance_prob < acceptance_ratio).flatten()\n")
h("p-h-tp", "C03", S + "tree_pyramid.py", "        return samples[weights > 0], weights[weights > 0]", "        keep = weights > 0\n        return samples[keep], weights[keep]")
h("p-h-hid", "C03,C06", S + "hi_daisee.py", "            samples.extend(self.T.nodes[n_idx].samples)\n            weights.extend(self.T.nodes[n_idx].weights)\n", "            node = self.T.nodes[n_idx]\n            samples.extend(node.samples)\n            weights.extend(node.weights)\n")

# ---------------------------------------------------------------- reset
m("rs-base-samples", "C04", S + "base.py", "        self._num_q_samples = 0\n        self.samples = t_tensor([])\n        self.weights = t_tensor([])\n        self.variogram = t_tensor([])\n\n    def get_acc", "        self._num_q_samples = 0\n        self.weights = t_tensor([])\n        self.variogram = t_tensor([])\n\n    def get_acc")
m("rs-base-q", "C04", S + "base.py", "    def reset(self):\n        self._num_pi_evals = 0\n        self._num_q_evals = 0\n        self._num_q_samples = 0\n", "    def reset(self):\n        self._num_pi_evals = 0\n        self._num_q_samples = 0\n")
m("rs-mix-model", "C04", S + "base.py", "        super(CMixtureSamplingMethod, self).reset()\n        self.model = None", "        super(CMixtureSamplingMethod, self).reset()")
m("rs-mpmc-w", "C04", S + "m_pmc.py", "        # Set uniform weights\n        self.wproposals = t_tensor([1/self.N] * self.N)\n", "        # Set uniform weights\n        if not len(self.wproposals):\n            self.wproposals = t_tensor([1/self.N] * self.N)\n")
m("rs-dm-prop", "C04", S + "dm_ais.py", "        self.proposals = []\n        for _ in range(self.N):\n", "        for _ in range(self.N - len(self.proposals)):\n")
m("rs-lais-nosuper", "C04", S + "layered_ais.py", "    def reset(self):\n        super(self.__class__, self).reset()\n", "    def reset(self):\n        self.samples = t_tensor([])\n        self.weights = t_tensor([])\n")
m("rs-mh-init", "C04", S + "metropolis_hastings.py", "        self.current_sample = np.clip(self.proposal_d.sample(), self.space_min, self.space_max)\n        self.is_init = False\n        self.trajectory_samples = []\n        self.trajectory_types = []\n\n", "        self.current_sample = np.clip(self.proposal_d.sample(), self.space_min, self.space_max)\n        self.trajectory_samples = []\n        self.trajectory_types = []\n\n")
m("rs-nested-L", "C04", S + "nested.py", "        self.L = np.array([])\n        self.Z = 0\n        super", "        if self.L is None:\n            self.L = np.array([])\n        self.Z = 0\n        super")
m("rs-mnested-live", "C04", S + "multi_nested.py", "    def reset(self):\n        self.live_points = np.random.uniform(0, 1, size=(self.N, len(self.space_max))) * self.range + self.space_min\n", "    def reset(self):\n")
m("rs-hid-T", "C04", S + "hi_daisee.py", "        super(self.__class__, self).reset()\n        self.T = CHiDaiseeTree(self.space_min, self.space_max)\n", "        super(self.__class__, self).reset()\n        if not hasattr(self, 'T'):\n            self.T = CHiDaiseeTree(self.space_min, self.space_max)\n")
m("rs-tp-T", "C04", S + "tree_pyramid.py", "        super(CTreePyramidSampling, self).reset()\n        self.T = CTreePyramid(self.space_min, self.space_max, kernel=self.kernel)\n", "        super(CTreePyramidSampling, self).reset()\n")
m("rs-tp-model", "C04", S + "tree_pyramid.py", "        self.model = self.T.root.sampler\n        self.viz_frames = list()\n        self.viz_elements = list()\n\n    def find_unique", "        self.viz_frames = list()\n        self.viz_elements = list()\n\n    def find_unique")
h("rs-h-base", "C04,C01", S + "base.py", "    def reset(self):\n        self._num_pi_evals = 0\n        self._num_q_evals = 0\n        self._num_q_samples = 0\n        self.samples = t_tensor([])\n        self.weights = t_tensor([])\n        self.variogram = t_tensor([])\n", "    def reset(self):\n        self._num_pi_evals = self._num_q_evals = self._num_q_samples = 0\n        for field in ('samples', 'weights', 'variogram'):\n            setattr(self, field, np.array([]))\n")
h("rs-h-mh", "C04", S + "metropolis_hastings.py", ["        self.target_d = None\n        self.current_sample = np.clip(self.proposal_d.sample(), self.space_min, self.space_max)\n        self.is_init = False\n        self.trajectory_samples = []\n        self.trajectory_types = []\n\n"], ["        self.target_d = None\n        self._start_chain()\n\n    def _start_chain(self):\n        self.is_init = False\n        self.current_sample = np.clip(self.proposal_d.sample(), self.space_min, self.space_max)\n        self.trajectory_types, self.trajectory_samples = [], []\n\n"])
h("rs-h-nested", "C04", S + "nested.py", "        self.live_points = np.random.uniform(0, 1, size=(self.N, len(self.space_max))) * self.range + self.space_min\n", "        self.live_points = np.random.rand(self.N, len(self.space_max)) * (self.space_max - self.space_min) + self.space_min\n")
h("rs-h-tp", "C04", S + "tree_pyramid.py", "        super(CTreePyramidSampling, self).reset()\n        self.T = CTreePyramid(self.space_min, self.space_max, kernel=self.kernel)\n        self.model = self.T.root.sampler\n", "        CMixtureISSamplingMethod.reset(self)\n        tree = CTreePyramid(self.space_min, self.space_max, self.kernel)\n        self.T, self.model = tree, tree.root.sampler\n")

# ---------------------------------------------------------------- time budget
m("tb-dm", "C05", S + "dm_ais.py", "            elapsed_time = time.time() - t_ini\n", "")
m("tb-dm-or", "C05,C07", S + "dm_ais.py", "n_samples > len(self.samples) and elapsed_time < timeout", "n_samples > len(self.samples) or elapsed_time < timeout")
m("tb-mpmc", "C05", S + "m_pmc.py", "while n_samples > len(self.samples) and elapsed_time < timeout:", "while n_samples > len(self.samples):")
m("tb-lais", "C05", S + "layered_ais.py", "            elapsed_time = time.time() - t_ini\n", "            elapsed_time = time.time() - t_ini\n            t_ini = time.time()\n")
m("tb-mh-step", "C05", S + "metropolis_hastings.py", "new_samples = self.sample(1, timeout - elapsed_time)", "new_samples = self.sample(1)")
m("tb-mh-step2", "C05", S + "metropolis_hastings.py", "sample = self.mcmc(1, self.n_steps, timeout - t_elapsed)", "sample = self.mcmc(1, self.n_steps)")
m("tb-mh-inner", "C05", S + "metropolis_hastings.py", "                self.current_sample = self.mcmc_step(self.current_sample, timeout=timeout-t_elapsed)\n                self.trajectory_types[-1] = self.DECORRELATION", "                self.current_sample = self.mcmc_step(self.current_sample, timeout=timeout)\n                self.trajectory_types[-1] = self.DECORRELATION")
m("tb-mh-loop", "C05", S + "metropolis_hastings.py", "while not accepted and timeout > t_elapsed:", "while not accepted:")
m("tb-rej", "C05", S + "rejection.py", "            t_elapsed = time.time() - t_ini\n\n        # Ret", "\n        # Ret")
m("tb-nested-break", "C05", S + "nested.py", "            if elapsed_time >= timeout:\n                break\n", "")
m("tb-nested-retry", "C05", S + "nested.py", "while value > new_value and elapsed_time < timeout:", "while value > new_value:")
m("tb-nested-full", "C05", S + "nested.py", "Lmin, target_d, timeout - elapsed_time)", "Lmin, target_d, timeout)")
m("tb-mnested-outer", "C05", S + "multi_nested.py", "                    break\n            if elapsed_time >= timeout:\n                break\n", "                    break\n")
m("tb-mnested-retry", "C05", S + "multi_nested.py", "while value > new_value and elapsed_time < timeout and ellipsoid", "while value > new_value and ellipsoid")
m("tb-hid", "C05", S + "hi_daisee.py", "            if time.time() - t_ini >= timeout:\n                break\n", "")
m("tb-tp", "C05", S + "tree_pyramid.py", "        while n_samples > self._get_nsamples() and elapsed_time < timeout:\n            # This is", "        while n_samples > self._get_nsamples():\n            # This is")
m("tb-tp-mix", "C05", S + "tree_pyramid.py", "return self.importance_sample_mixture(target_d, n_samples, timeout)", "return self.importance_sample_mixture(target_d, n_samples)")
h("tb-h-dm", "C05,C07", S + "dm_ais.py", ["        while n_samples > len(self.samples) and elapsed_time < timeout:\n", "            elapsed_time = time.time() - t_ini\n"], ["        while len(self.samples) < n_samples:\n            if time.time() - t_ini >= timeout:\n                break\n", ""])
h("tb-h-mh", "C05", S + "metropolis_hastings.py", "        while n_samples > len(self.samples) and elapsed_time < timeout:\n            new_samples = self.sample(1, timeout - elapsed_time)", "        deadline = t_ini + timeout\n        while n_samples > len(self.samples) and elapsed_time < timeout:\n            new_samples = self.sample(1, deadline - time.time())")
h("tb-h-nested", "C05,C16", S + "nested.py", "        for i in range(n_samples - len(self.samples)):\n", "        n_new = n_samples - len(self.samples)\n        for i in range(n_new):\n")

# ---------------------------------------------------------------- cumulative requests
m("cu-dm-over", "C07,C03", S + "dm_ais.py", "self.samples = np.concatenate((self.samples, new_samples)) if self.samples.size else new_samples", "self.samples = new_samples")
m("cu-mpmc-if", "C07,C03", S + "m_pmc.py", "np.concatenate((self.samples, new_samples)) if self.samples.size else", "np.concatenate((new_samples, self.samples)) if self.samples.size else")
m("cu-rej-n", "C07", S + "rejection.py", "while t_elapsed < timeout and n_samples > len(self.samples):", "while t_elapsed < timeout and n_samples >= len(self.samples):")
m("cu-nested", "C07", S + "nested.py", "for i in range(n_samples - len(self.samples)):", "for i in range(n_samples):")
m("cu-mnested", "C07", S + "multi_nested.py", "        if n_samples <= len(self.samples):\n            return self.samples, self.weights\n\n", "")
m("cu-hid", "C07", S + "hi_daisee.py", "for t in range(len(self.samples), n_samples):", "for t in range(n_samples):")
m("cu-mh-restart", "C07", S + "metropolis_hastings.py", "        self.target_d = target_d\n        elapsed_time = 0\n", "        self.target_d = target_d\n        self.samples = t_tensor([])\n        elapsed_time = 0\n")
m("cu-lais-do", "C07", S + "layered_ais.py", "while n_samples > len(self.samples) and", "while n_samples >= len(self.samples) and")
m("cu-rej-vstack", "C07", S + "rejection.py", "np.vstack((self.samples, proposals[accept_idx]))", "np.vstack((self.samples[-1:], proposals[accept_idx]))")
h("cu-h-lais", "C07", S + "layered_ais.py", "while n_samples > len(self.samples) and elapsed_time < timeout:", "while not (len(self.samples) >= n_samples or elapsed_time >= timeout):")
h("cu-h-nested", "C07,C03,C06", S + "nested.py", "        for i in range(n_samples - len(self.samples)):\n", "        for i in range(len(self.samples), n_samples):\n")

# ---------------------------------------------------------------- approximation
m("ap-mh", "C08", S + "metropolis_hastings.py", "        self._update_model()\n        return self.samples, self.weights", "        return self.samples, self.weights")
m("ap-mh-once", "C08", S + "metropolis_hastings.py", "        self._update_model()\n        return self.samples, self.weights", "        if self.model is None:\n            self._update_model()\n        return self.samples, self.weights")
m("ap-rej", "C08", S + "rejection.py", "        self._update_model()\n", "")
m("ap-nested", "C08", S + "nested.py", "        self._update_model()\n", "")
m("ap-mnested", "C08", S + "multi_nested.py", "        self._update_model()\n", "")
m("ap-hid", "C08", S + "hi_daisee.py", "        self._update_model()\n        return self._get_samples()", "        return self._get_samples()")
m("ap-tp", "C08", S + "tree_pyramid.py", "            elapsed_time = time.time() - t_ini\n\n        self._update_model()\n        return self._get_samples()\n\n    def importance_sample(", "            elapsed_time = time.time() - t_ini\n\n        return self._get_samples()\n\n    def importance_sample(")
m("ap-mpmc-w", "C08,C15", S + "m_pmc.py", "        self.model.set_weights(self.wproposals)\n", "")
m("ap-dm-copy", "C08", S + "dm_ais.py", "        # Update all N proposals with the DM-PMC update rule\n", "        # Update all N proposals with the DM-PMC update rule\n        self.proposals = [CMultivariateNormal({\"mean\": p.loc, \"sigma\": p.cov}) for p in self.proposals]\n")
m("ap-kde-first", "C08", S + "base.py", "x = self.samples[idx]\n", "x = self.samples[min(idx, self.n_samples_kde)]\n")
m("ap-kde-range", "C08", S + "base.py", "np.random.random_integers(0, len(self.samples) - 1, self.n_samples_kde)", "np.random.randint(0, self.n_samples_kde, self.n_samples_kde)")

m("ap-tp-idx", "C08", S + "tree_pyramid.py", "        weights = self.T.weights[self.T.leaves_idx]\n        centers", "        weights = self.T.weights[:len(self.T.leaves)]\n        centers")
h("ap-h-kde", "C08", S + "base.py", "np.random.random_integers(0, len(self.samples) - 1, self.n_samples_kde)", "np.random.randint(0, len(self.samples), size=self.n_samples_kde)")
h("ap-h-rej", "C08,C06", S + "rejection.py", "        self.weights = np.ones_like(self.weights) * 1 / len(self.weights)\n        self._update_model()\n", "        self._update_model()\n        self.weights = np.ones_like(self.weights) * 1 / len(self.weights)\n")
h("ap-h-hid", "C08,C03", S + "hi_daisee.py", "        self._update_model()\n        return self._get_samples()", "        result = self._get_samples()\n        self._update_model()\n        return result")

# ---------------------------------------------------------------- box
m("bx-mh-noclip", "C09", S + "metropolis_hastings.py", "x_new = np.clip(x_old + self.proposal_d.sample(), self.space_min, self.space_max)", "x_new = x_old + self.proposal_d.sample()")
m("bx-mh-order", "C09", S + "metropolis_hastings.py", "x_new = np.clip(x_old + self.proposal_d.sample(), self.space_min, self.space_max)", "x_new = np.clip(x_old, self.space_min, self.space_max) + self.proposal_d.sample()")
m("bx-mh-reset", "C09", S + "metropolis_hastings.py", "        self.target_d = None\n        self.current_sample = np.clip(self.proposal_d.sample(), self.space_min, self.space_max)\n", "        self.target_d = None\n        self.current_sample = self.proposal_d.sample()\n")
m("bx-nested-retry", "C09", S + "nested.py", "        while value > new_value and elapsed_time < timeout:\n            new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)\n", "        while value > new_value and elapsed_time < timeout:\n            new_sample = self.proposal_dist.sample() + sample\n")
m("bx-nested-live", "C09", S + "nested.py", "* self.range + self.space_min", "* self.space_max + self.space_min")
m("bx-mnested-first", "C09", S + "multi_nested.py", "        new_sample = np.clip(ellipsoid.sample(), self.space_min, self.space_max)\n\n", "        new_sample = ellipsoid.sample()\n\n")
m("bx-mnested-swap", "C09", S + "multi_nested.py", "            new_sample = np.clip(ellipsoid.sample(), self.space_min, self.space_max)\n            self._num", "            new_sample = np.clip(ellipsoid.sample(), self.space_min, self.range)\n            self._num")
m("bx-lais", "C09", S + "layered_ais.py", "x_hat = np.clip(x + x_delta, self.space_min, self.space_max)", "x_hat = x + np.clip(x_delta, self.space_min, self.space_max)")
h("bx-h-mh", "C09", S + "metropolis_hastings.py", "x_new = np.clip(x_old + self.proposal_d.sample(), self.space_min, self.space_max)", "x_new = np.minimum(np.maximum(x_old + self.proposal_d.sample(), self.space_min), self.space_max)")
h("bx-h-nested", "C09", S + "nested.py", "self.live_points = np.random.uniform(0, 1, size=(self.N, len(self.space_max))) * self.range + self.space_min", "self.live_points = np.random.uniform(self.space_min, self.space_max, size=(self.N, len(self.space_max)))")

# ---------------------------------------------------------------- acceptance
m("ac-mh-log", "C12", S + "metropolis_hastings.py", "accepted = alpha > np.log(accept)", "accepted = alpha > accept")
m("ac-mh-sign", "C12", S + "metropolis_hastings.py", "metropolis_term = pi_x_new - pi_x_old", "metropolis_term = pi_x_old - pi_x_new")
m("ac-mh-hastings", "C12", S + "metropolis_hastings.py", "self.proposal_d.log_prob(x_old - x_new) - self.proposal_d.log_prob(x_new - x_old)", "self.proposal_d.log_prob(x_new - x_old) - self.proposal_d.log_prob(x_old - x_new)")
m("ac-mh-nohast", "C12", S + "metropolis_hastings.py", "alpha = metropolis_term + hastings_term", "alpha = metropolis_term")
m("ac-mh-keep", "C12", S + "metropolis_hastings.py", "        if accepted:\n            x_old = x_new\n            self", "        x_old = x_new\n        if accepted:\n            self")
m("ac-mh-rand", "C12", S + "metropolis_hastings.py", ["            accept = np.random.rand()\n", "        t_ini = time.time()\n        x_new = x_old\n"], ["", "        t_ini = time.time()\n        accept = np.random.rand()\n        x_new = x_old\n"])
m("ac-lais-dir", "C12", S + "layered_ais.py", "x = x_hat if ratio > alpha else x", "x = x_hat if ratio < alpha else x")
m("ac-lais-ratio", "C12", S + "layered_ais.py", "ratio = new_val / old_val", "ratio = old_val / new_val")
m("ac-lais-one", "C12", S + "layered_ais.py", "alpha = np.random.rand()", "alpha = 0.5")
m("ac-rej-scale", "C12", S + "rejection.py", "proposals_prob_q = self.proposal_dist.prob(proposals) * self.scaling", "proposals_prob_q = self.proposal_dist.prob(proposals)")
m("ac-rej-dir", "C12", S + "rejection.py", "acceptance_ratio > acceptance_prob", "acceptance_ratio < acceptance_prob")
m("ac-rej-u", "C12", S + "rejection.py", "acceptance_prob = np.random.uniform(0, 1, size=n_samples - len(self.samples))", "acceptance_prob = np.random.uniform(0, self.scaling, size=n_samples - len(self.samples))")
m("ac-rej-one", "C12", S + "rejection.py", "acceptance_prob = np.random.uniform(0, 1, size=n_samples - len(self.samples))", "acceptance_prob = np.random.uniform(0, 1)")
h("ac-h-mh", "C12", S + "metropolis_hastings.py", "            accepted = alpha > np.log(accept)", "            accepted = np.log(accept) < metropolis_term + hastings_term")
h("ac-h-lais", "C12", S + "layered_ais.py", "            x = x_hat if ratio > alpha else x\n", "            if new_val / old_val > alpha:\n                x = x_hat\n")
h("ac-h-rej", "C12,C03,C06", S + "rejection.py", "acceptance_ratio = proposals_prob_p / proposals_prob_q", "acceptance_ratio = np.exp(np.log(proposals_prob_p) - np.log(proposals_prob_q))")

# ---------------------------------------------------------------- effective sample size
m("es-approx-n", "C13", S + "base.py", "ESS = 1 / np.sum(normweights*normweights)", "ESS = 1 / np.sum(normweights)")
m("es-approx-raw", "C13", S + "base.py", "normweights = self.weights / np.sum(self.weights)", "normweights = self.weights / np.max(self.weights)")
m("es-approx-len", "C13", S + "base.py", "        ESS = 1 / np.sum(normweights*normweights)\n        return ESS / len(self.samples)", "        ESS = 1 / np.sum(normweights*normweights)\n        return ESS / self._num_q_samples")
m("es-nest-sign", "C13", S + "nested.py", "ESS = np.exp(-np.sum(self.weights * np.log(self.weights)))", "ESS = np.exp(-np.sum(np.log(self.weights)))")
m("es-mnest-raw", "C13", S + "multi_nested.py", "        return ESS / len(self.samples)", "        return ESS / self.N")
m("es-tp", "C13", S + "tree_pyramid.py", "ESS = (np.sum(weights) * np.sum(weights)) / np.sum(weights * weights)\n        #", "ESS = np.sum(weights) / np.sum(weights * weights)\n        #")
m("es-tp-split", "C13", S + "tree_pyramid.py", "ESS = (np.sum(node.weight_hist) * np.sum(node.weight_hist)) /", "ESS = np.sum(node.weight_hist * node.weight_hist) /")
m("es-hid", "C13", S + "hi_daisee.py", "self.ESS = (np.sum(self.weights) * np.sum(self.weights)) / np.sum(self.weights * self.weights)", "self.ESS = np.sum(self.weights * self.weights) / (np.sum(self.weights) * np.sum(self.weights))")
m("es-acc", "C13", S + "base.py", "return len(self.samples) / self._num_q_samples", "return len(self.samples) / self._num_q_evals")
m("es-acc-tp", "C13", S + "tree_pyramid.py", "return self._get_nsamples() / self._num_q_samples", "return len(self.T.leaves) / self._num_pi_evals")
m("es-is", "C13", S + "base.py", "    def get_NESS(self):\n        return self.get_approx_NESS()\n\n", "")
h("es-h", "C13", S + "base.py", "        normweights = self.weights / np.sum(self.weights)\n        ESS = 1 / np.sum(normweights*normweights)\n        return ESS / len(self.samples)", "        total = self.weights.sum()\n        return total ** 2 / (self.weights ** 2).sum() / len(self.samples)")
h("es-h-nest", "C13", S + "nested.py", "ESS = np.exp(-np.sum(self.weights * np.log(self.weights)))", "entropy = -(np.log(self.weights) * self.weights).sum()\n        ESS = np.exp(entropy)")
h("es-h-hid", "C13", S + "hi_daisee.py", "self.ESS = (np.sum(self.weights) * np.sum(self.weights)) / np.sum(self.weights * self.weights)", "self.ESS = np.sum(self.weights) ** 2 / np.sum(self.weights ** 2)")

# ---------------------------------------------------------------- purity
m("pu-stats", "C14", S + "base.py", '        return {"proposal_samples"', '        self._num_q_samples = max(self._num_q_samples, len(self.samples))\n        return {"proposal_samples"')
m("pu-ness", "C14", S + "base.py", "normweights = self.weights / np.sum(self.weights)", "self.weights /= np.sum(self.weights)\n        normweights = self.weights")
m("pu-prob", "C14", S + "base.py", "        return self.model.prob(s)", "        self._num_q_evals += len(s)\n        return self.model.prob(s)")
m("pu-tp-sort", "C14", S + "tree_pyramid.py", "        nsamples = 0\n        for l in self.T.leaves:\n            nsamples", "        nsamples = 0\n        self.T.leaves.sort()\n        for l in self.T.leaves:\n            nsamples")
m("pu-tp-q", "C14", S + "tree_pyramid.py", "                    likelihood[i] = self.T.weights[inliers] / (", "                    self.T.weights[inliers] /= (")
h("pu-h", "C14", S + "base.py", "normweights = self.weights / np.sum(self.weights)", "normweights = self.weights.copy()\n        normweights /= normweights.sum()")

# ---------------------------------------------------------------- M-PMC
m("mp-mean", "C15", S + "m_pmc.py", "posteriors[d].reshape(-1, 1) * samples, axis=0) / self.wproposals[d]", "samples, axis=0) / self.wproposals[d]")
m("mp-div", "C15", S + "m_pmc.py", "* samples, axis=0) / self.wproposals[d]", "* samples, axis=0)")
m("mp-alpha", "C15", S + "m_pmc.py", "self.wproposals[d] = np.sum(weights * posteriors[d])", "self.wproposals[d] = np.sum(posteriors[d]) / self.K")
m("mp-norm", "C15", S + "m_pmc.py", "self.wproposals = self.wproposals / self.wproposals.sum()", "self.wproposals = self.wproposals / self.N")
m("mp-set", "C15", S + "m_pmc.py", "self.proposals[d].set_moments(mu, cov)", "self.proposals[0].set_moments(mu, cov)")
m("mp-rho", "C15", S + "m_pmc.py", "rho[d][i] = np.exp(np.log(alpha_d) + q_d - q_x)", "rho[d][i] = np.exp(np.log(alpha_d) + q_d)")
m("mp-scatter", "C15", S + "m_pmc.py", "cov_val = (samples - mu).T @ (samples - mu)", "cov_val = samples.T @ (samples - mu)")
h("mp-h", "C15", S + "m_pmc.py", "            mu = np.sum(weights.reshape(-1, 1) * posteriors[d].reshape(-1, 1) * samples, axis=0) / self.wproposals[d]", "            w = weights * posteriors[d]\n            mu = np.sum(w.reshape(-1, 1) * samples, axis=0) / self.wproposals[d]")
h("mp-h2", "C15", S + "m_pmc.py", "self.wproposals[d] = np.sum(weights * posteriors[d])", "self.wproposals[d] = np.dot(weights, posteriors[d])")

# ---------------------------------------------------------------- nested
m("ns-max", "C16", S + "nested.py", "min_idx = np.argmin(values)", "min_idx = np.argmax(values)")
m("ns-L", "C16", S + "nested.py", "Lmin = np.min(values)", "Lmin = np.mean(values)")
m("ns-val", "C16", S + "nested.py", "            self.live_points[min_idx], values[min_idx] = self.resample(", "            self.live_points[min_idx], values[0] = self.resample(")
m("ns-retry-val", "C16", S + "nested.py", "        while value > new_value and elapsed_time < timeout:\n            new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)\n            self._num_q_samples += 1\n            new_value = pdf.prob(new_sample)\n", "        while value > new_value and elapsed_time < timeout:\n            self._num_q_samples += 1\n            new_value = pdf.prob(self.proposal_dist.sample() + sample)\n")
m("ns-alias", "C16", S + "nested.py", "else self.live_points[min_idx].reshape(1, -1).copy()", "else self.live_points[0].reshape(1, -1).copy()")
m("ns-mn-global", "C16", S + "multi_nested.py", "min_idx = g_indices[np.argmin(values[c_ellipsoid.indices])]", "min_idx = np.argmin(values[c_ellipsoid.indices])")
m("ns-mn-L", "C16", S + "multi_nested.py", "Lmin = np.min(values[c_ellipsoid.indices])", "Lmin = np.min(values)")
m("ns-mn-val", "C16", S + "multi_nested.py", "points[min_idx], values[min_idx] = self.resample(", "points[min_idx], values[i] = self.resample(")
h("ns-h", "C16,C03,C06", S + "nested.py", "            Lmin = np.min(values)\n            min_idx = np.argmin(values)\n", "            min_idx = np.argmin(values)\n            Lmin = values[min_idx]\n")
h("ns-h-mn", "C16", S + "multi_nested.py", "g_indices = np.argwhere(c_ellipsoid.indices == True).flatten()", "g_indices = np.flatnonzero(c_ellipsoid.indices)")
T_ = S + "tree_pyramid.py"
H_ = S + "hi_daisee.py"
m("t-rad", "C10", T_, "new_radius = node.radius / 2\n", "new_radius = node.radius / 2 ** (node.level + 1)\n")
m("t-rad0", "C10", T_, "new_radius = node.radius / 2\n", "new_radius = self.root.radius / 2\n")
m("t-off", "C10", T_, "offset = (node.radius / 2) * t_tensor(coeff)", "offset = node.radius * t_tensor(coeff) / 3")
m("t-coef", "C10", T_, "itertools.product([-1, 1], repeat=len(node.center))", "itertools.product([1, -1], [-1, 1], [-1, 1], [-1, 1])")
m("t-coef2", "C10", T_, "itertools.product([-1, 1], repeat=len(node.center))", "itertools.combinations_with_replacement([-1, 1], len(node.center))")
m("t-leafidx0", "C10", T_, "        new_nodes[0].leaf_idx = node.leaf_idx\n", "")
m("t-leafidx-off", "C10", T_, "leaf_idx=len(self.leaves) + i - 1", "leaf_idx=len(self.leaves) + i")
m("t-nodeidx", "C10", T_, "node_idx=len(self.nodes) + i,", "node_idx=len(self.leaves) + i,")
m("t-flag", "C10", T_, "self.leaves_idx[node.node_idx] = False", "self.leaves_idx[node.leaf_idx] = False")
m("t-leaf-1", "C10", T_, "        node.leaf_idx = -1\n", "")
m("t-leafrep", "C10", T_, "self.leaves[node.leaf_idx] = new_nodes[0]", "self.leaves[node.node_idx] = new_nodes[0]")
m("t-leafext", "C10", T_, "self.leaves.extend(new_nodes[1:])", "self.leaves.extend(new_nodes)")
m("t-radii", "C10", T_, "np.repeat(new_radius.reshape(1, -1), len(new_nodes), axis=0)", "np.repeat(node.radius.reshape(1, -1), len(new_nodes), axis=0)")
m("t-centers", "C10", T_, "t_tensor(p_centers)))", "t_tensor(p_centers[::-1])))")
m("t-centers2", "C10", T_, "np.concatenate((self.centers, t_tensor(p_centers)))", "np.concatenate((t_tensor(p_centers), self.centers))")
m("t-weights2", "C10", T_, "self.weights = np.concatenate((self.weights, np.zeros(len(new_nodes))))", "self.weights = np.concatenate((self.weights, np.zeros(len(new_nodes) - 1)))")
m("t-share", "C10", T_, "weight=node.weight / (N + 1)", "weight=node.weight / N")
m("t-kernel", "C10", T_, "level=node.level + 1, kernel=self.kernel)", "level=node.level + 1)")
m("t-children", "C10", T_, "        node.children = new_nodes\n", "")
m("t-ess", "C10", T_, "if ESS > ess_target * len(node.weight_hist):", "if ESS > ess_target:")
m("t-ess2", "C10", T_, "if ESS > ess_target * len(node.weight_hist):", "if ESS < ess_target * len(node.weight_hist):")
m("t-nmin", "C10", T_, "if len(node.weight_hist) < n_min:", "if len(self.leaves) < n_min:")
m("t-esspop", "C10", T_, "            if ESS > ess_target * len(node.weight_hist):\n", "            self.leaves_idx[node.node_idx] = False\n            if ESS > ess_target * len(node.weight_hist):\n")
m("t-root", "C10", T_, "radius=np.array([np.max((dmax - dmin) / 2)])", "radius=np.array([np.min((dmax - dmin) / 2)])")
m("t-root2", "C10", T_, "radius=np.array([np.max((dmax - dmin) / 2)])", "radius=np.array([np.max(dmax) / 2 - np.min(dmin) / 4])")
m("t-isleaf", "C10", T_, "return self.leaf_idx != -1", "return self.leaf_idx > 0")
h("th-1", "C10", T_, "            offset = (node.radius / 2) * t_tensor(coeff)\n            p_centers.append(node.center + offset)\n\n        new_radius = node.radius / 2\n", "            p_centers.append(node.center + 0.5 * node.radius * t_tensor(coeff))\n        new_radius = 0.5 * node.radius\n")
h("th-2", "C10", T_, "        self.leaves_idx[node.node_idx] = False\n        node.children = new_nodes\n        node.leaf_idx = -1\n", "        node.leaf_idx = -1\n        node.children = list(new_nodes)\n        self.leaves_idx[node.node_idx] = False\n")
h("th-3", "C10", T_, "        center_coeffs = itertools.product([-1, 1], repeat=len(node.center))\n", "        center_coeffs = itertools.product((1, -1), repeat=self.ndims)\n")
h("th-4", "C10", T_, "        for N, coeff in enumerate(center_coeffs):\n            offset = (node.radius / 2) * t_tensor(coeff)\n            p_centers.append(node.center + offset)\n", "        for coeff in center_coeffs:\n            p_centers.append(node.center + (node.radius / 2) * t_tensor(coeff))\n        N = len(p_centers) - 1\n")
h("th-5", "C10", T_, "            ESS = (np.sum(node.weight_hist) * np.sum(node.weight_hist)) / np.sum(node.weight_hist * node.weight_hist)\n", "            total = np.sum(node.weight_hist)\n            ESS = total ** 2 / np.sum(node.weight_hist ** 2)\n")
h("th-6", "C10", T_, "        self.nodes.extend(new_nodes)\n        self.leaves_idx.extend([True] * len(new_nodes))\n", "        for new_node in new_nodes:\n            self.nodes.append(new_node)\n            self.leaves_idx.append(True)\n")
h("th-7", "C10", T_, "        self.radii = np.concatenate((self.radii, np.repeat(new_radius.reshape(1, -1), len(new_nodes), axis=0)))\n", "        self.radii = np.concatenate((self.radii, t_tensor([n.radius for n in new_nodes])))\n")
h("th-8", "C10", T_, "        self.radii = np.concatenate((self.radii, np.repeat(new_radius.reshape(1, -1), len(new_nodes), axis=0)))\n", "        self.radii = np.vstack((self.radii, np.tile(new_radius, (len(new_nodes), 1))))\n")
m("hd-sign", "C11", H_, "c_left[sel_dim] -= new_rad[sel_dim]", "c_left[sel_dim] -= n.radius[sel_dim]")
m("hd-dim", "C11", H_, "np.random.randint(low=0, high=self.dims)", "np.random.randint(low=0, high=max(1, self.dims - 1))")
m("hd-rad", "C11", H_, "new_rad[sel_dim] /= 2\n", "new_rad /= 2\n")
m("hd-plane", "C11", H_, "if x[sel_dim] < n_left.center[sel_dim] + n_left.radius[sel_dim]:", "if x[sel_dim] < n_left.center[sel_dim]:")
m("hd-plane0", "C11", H_, "if x[sel_dim] < n_left.center[sel_dim] + n_left.radius[sel_dim]:", "if x[0] < n_left.center[0] + n_left.radius[0]:")
m("hd-w", "C11", H_, "w = target_d.prob(x) / n_right.prob(x)", "w = target_d.prob(x) / n_left.prob(x)")
m("hd-w2", "C11", H_, "w = target_d.prob(x) / n_left.prob(x)", "w = target_d.prob(x) / n.prob(x)")
m("hd-q", "C11", H_, "n_right.q = n.q / 2", "n_right.q = n_left.q / 2")
m("hd-leaves", "C11", H_, "        self.leaves.remove(node_id)\n", "")
m("hd-leaves2", "C11", H_, "self.leaves.remove(node_id)", "self.leaves.pop(0)")
m("hd-leaves3", "C11", H_, "self.leaves.append(n_right.idx)", "self.leaves.append(n_left.idx)")
m("hd-clear", "C11", H_, "        n.samples = None\n", "")
m("hd-idx", "C11", H_, "CHiDaiseeNode(len(self.nodes) + 1, c_right, new_rad)", "CHiDaiseeNode(len(self.nodes), c_right, new_rad)")
m("hd-parent", "C11", H_, "n_right.parent = node_id", "n_right.parent = n_left.idx")
m("hd-order", "C11", H_, "        self.nodes.append(n_left)\n        self.nodes.append(n_right)\n", "        self.nodes.append(n_right)\n        self.nodes.append(n_left)\n")
m("hd-copy", "C11", H_, "new_rad = np.copy(n.radius)", "new_rad = n.radius")
m("hd-copyc", "C11", H_, "c_right = np.copy(n.center)", "c_right = n.center")
m("hd-N", "C11,C06", H_, "self.N = len(self.samples)", "self.N = self.samples.size")
m("hd-ESS", "C11", H_, "self.ESS = (np.sum(self.weights) * np.sum(self.weights))", "self.ESS = (np.sum(w) * np.sum(self.weights))")
m("hd-els", "C11", H_, "n_right.add_sample(np.array([x]), w)", "n_left.add_sample(np.array([x]), w)")
m("hd-root", "C11", H_, "        radius = (self.space_max - self.space_min) / 2\n        self.nodes", "        radius = (self.space_max - self.space_min) / 4\n        self.nodes")
h("hdh-1", "C11", H_, "if x[sel_dim] < n_left.center[sel_dim] + n_left.radius[sel_dim]:", "if x[sel_dim] < n.center[sel_dim]:")
h("hdh-2", "C11", H_, "if x[sel_dim] < n_left.center[sel_dim] + n_left.radius[sel_dim]:", "if not n_right.center[sel_dim] - new_rad[sel_dim] <= x[sel_dim]:")
h("hdh-3", "C11", H_, "        c_left = np.copy(n.center)\n        c_right = np.copy(n.center)\n        c_left[sel_dim] -= new_rad[sel_dim]\n        c_right[sel_dim] += new_rad[sel_dim]\n", "        offset = np.zeros_like(n.center)\n        offset[sel_dim] = new_rad[sel_dim]\n        c_left = n.center - offset\n        c_right = n.center + offset\n")
h("hdh-4", "C11", H_, "        self.leaves.remove(node_id)\n        self.leaves.append(n_left.idx)\n        self.leaves.append(n_right.idx)\n", "        self.leaves = [i for i in self.leaves if i != node_id] + [n_left.idx, n_right.idx]\n")
h("hdh-5", "C11", H_, "        self.ESS = (np.sum(self.weights) * np.sum(self.weights)) / np.sum(self.weights * self.weights)\n", "        self.ESS = np.sum(self.weights) ** 2 / np.sum(self.weights ** 2)\n")
h("hdh-6", "C11", H_, "        for x in n.samples:\n            if x[sel_dim] < n_left.center[sel_dim] + n_left.radius[sel_dim]:\n                if n_left.prob(x) <= 0:\n                    raise ValueError(\"pl(x) = %f ; pr(x) = %f \" % (n_left.prob(x), n_right.prob(x)))\n                w = target_d.prob(x) / n_left.prob(x)\n                n_left.add_sample(np.array([x]), w)\n            else:\n                if n_right.prob(x) <= 0:\n                    raise ValueError(\"pl(x) = %f ; pr(x) = %f \" % (n_left.prob(x), n_right.prob(x)))\n                w = target_d.prob(x) / n_right.prob(x)\n                n_right.add_sample(np.array([x]), w)\n",
  "        middle = n_left.center[sel_dim] + n_left.radius[sel_dim]\n        for x in n.samples:\n            child = n_left if x[sel_dim] < middle else n_right\n            density = child.prob(x)\n            if density <= 0:\n                raise ValueError(\"p(x) = %f\" % density)\n            child.add_sample(np.array([x]), target_d.prob(x) / density)\n")
# ---------------------------------------------------------------- benchmark
BE = "ais_benchmarks/benchmark/CBenchmark.py"
m("be-hdr", "C40", BE, "NESS method target_d accept_rate", "NESS target_d method accept_rate")
m("be-hdr2", "C40", BE, "accept_rate proposal_samples proposal_evals", "accept_rate proposal_evals proposal_samples")
m("be-row", "C40", BE, "method.num_proposal_samples,\n", "method.num_target_evals,\n")
m("be-rowsep", "C40", BE, '"%9.3f %s %s %5.3f', '"%.3f %s %s %5.3f')
m("be-rownl", "C40", BE, 'f.write(text + "\\n")', 'f.write(text)')
m("be-n", "C40", BE, "nsamples=len(samples_acc), file", "nsamples=n_samples, file")
m("be-mode", "C40", BE, "mode='a+'", "mode='w+'")
m("be-dictname", "C40", "ais_benchmarks/metrics/performance.py", 'self.name = "memory"', 'self.name = "time"')
m("be-seed0", "C41", BE, "        if rseed >= 0:", "        if rseed > 0:")
m("be-seednone", "C41", BE, "        if rseed >= 0:\n            np.random.seed(rseed)\n", "")
m("be-seedneg", "C41", BE, "        if rseed >= 0:\n            np.random.seed(rseed)\n", "        np.random.seed(abs(rseed))\n")
m("be-seedrep", "C41", BE, "            t_start = time.time()\n            sampling_time = 0", "            if rseed >= 0:\n                np.random.seed(rseed)\n            t_start = time.time()\n            sampling_time = 0")
m("be-rng", "C41", S + "rejection.py", "np.random.uniform", "np.random.default_rng().uniform")
m("be-rng2", "C41", S + "multi_nested.py", "np.random.uniform", "np.random.RandomState().uniform")
m("be-pre", "C42", BE, "                [m.pre() for m in metrics_eval]\n", "")
m("be-preprint", "C42", BE, "                [m.pre() for m in metrics_eval]\n\n", "                [m.pre() for m in metrics_eval]\n                print(text_display)\n")
m("be-post", "C42", BE, ("                # Compute metrics right after the sampling operation\n                [m.post() for m in metrics_eval]\n", "                    results[m.name] = val\n"), ("", "                    results[m.name] = val\n                [m.post() for m in metrics_eval]\n"))
m("be-prefirst", "C42", BE, "                [m.pre() for m in metrics_eval]\n", "                metrics_eval[0].pre() if metrics_eval else None\n")
m("be-preonce", "C42", BE, ("                [m.pre() for m in metrics_eval]\n", "            [m.reset() for m in metrics_eval]\n"), ("", "            [m.reset() for m in metrics_eval]\n            [m.pre() for m in metrics_eval]\n"))
m("be-evalsampl", "C43", BE, "nsamples=sampling_eval_samples)", "nsamples=n_samples)")
m("be-pq", "C43", BE, "p=target_dist, q=sampling_method", "p=sampling_method, q=target_dist")
m("be-noclear", "C43", BE, "        self.targets.clear()\n", "")
m("be-noclearm", "C43", BE, "        self.methods.clear()\n", "")
m("be-evalmix", "C43", BE, 'self.eval_sampl.append(target["nsamples_eval"])', 'self.eval_sampl.append(target["nsamples"])')
m("be-nreps", "C43", BE, "range(n_reps)", "range(1, n_reps)")
m("be-batchclear", "C45", BE, 'self.batch_sizes.append(target["batch_size"])', 'self.batch_sizes.insert(0, target["batch_size"])')
m("be-grow", "C45", BE, "n_samples = len(samples_acc) + batch_size", "n_samples = n_samples + batch_size")
m("be-le", "C45", BE, "while len(samples_acc) < max_samples:", "while len(samples_acc) <= max_samples:")
m("be-first", "C45", BE, "            n_samples = batch_size\n", "            n_samples = max_samples\n")
m("be-rowif", "C45", BE, "                if filename is not None:", "                if filename is not None and niter > 0:")
m("be-support", "C46", BE, "target_dist.support()[0],\n                              target_dist.support()[1], ndims)", "target_dist.support()[1],\n                              target_dist.support()[0], ndims)")
m("be-dims", "C46", BE, '"dims":%d\' % dims', '"dims":%d\' % self.ndims[0]')
m("be-dropparam", "C46", BE, "for p in params[0:len(params) - 1]:", "for p in params[0:len(params) - 2]:")
m("be-first-target", "C46", BE, "target_dist.support()[1], ndims)\n\n            for", "self.targets[0].support()[1], ndims)\n\n            for")
m("be-mname", "C46", BE, 'm.name = method["name"]', 'm.name = method["type"]')
m("be-noreset", "C47", BE, "            sampling_method.reset()\n            samples_acc", "            samples_acc")
m("be-nometreset", "C47", BE, "            [m.reset() for m in metrics_eval]\n", "")
m("be-resetonce", "C47", BE, "            sampling_method.reset()\n            samples_acc", "            if nexp == 0:\n                sampling_method.reset()\n            samples_acc")
m("be-accout", "C47", BE, ("            samples_acc = t_tensor([])\n            n_samples = batch_size\n", "        for nexp in range(n_reps):\n"), ("", "        samples_acc = t_tensor([])\n        n_samples = batch_size\n        for nexp in range(n_reps):\n"))
h("beh-1", "C40,C42,C43,C45,C46,C47,C41", BE, "                [m.pre() for m in metrics_eval]\n", "                for metric in metrics_eval:\n                    metric.pre()\n")
h("beh-2", "C40,C42,C43,C45,C46,C47,C41", BE, ("            while len(samples_acc) < max_samples:\n", "                # Obtain experiment execution runtime\n"), ("            while True:\n                if len(samples_acc) >= max_samples:\n                    break\n", "                # Obtain experiment execution runtime\n"))
h("beh-3", "C40,C42,C43,C45,C46,C47,C41", BE, '''            text = "%02d %04d " % (target.dims, nsamples)
            text += " ".join(["%9.5f" % val for val in results.values()])
            text += "%9.3f''', '''            text = "%d %d " % (target.dims, nsamples)
            text += " ".join(["%.5f" % val for val in results.values()])
            text += " %.3f''')
h("beh-4", "C40,C42,C43,C45,C46,C47,C41", BE, "                    val = m.compute(p=target_dist, q=sampling_method, nsamples=sampling_eval_samples)\n                    results[m.name] = val\n", "                    results[m.name] = m.compute(target_dist, sampling_method, sampling_eval_samples) if False else m.compute(p=target_dist, q=sampling_method, nsamples=sampling_eval_samples)\n")
h("beh-5", "C40,C42,C43,C45,C46,C47,C41", BE, '''            params_str = ""
            for p in params[0:len(params) - 1]:
                params_str += p
''', '''            params_str = "".join(params[:-1])
''')
h("beh-6", "C40,C42,C43,C45,C46,C47,C41,C05", BE, ("            sampling_time = 0\n", "                # Compute metrics right after the sampling operation\n", "max_sampling_time - sampling_time"), ("            sampling_time = 0.0\n", "                sampling_time = time.time() - t_start\n", "max_sampling_time - sampling_time"))
h("beh-7", "C40,C42,C43,C45,C46,C47,C41", BE, '''        for target_dist, ndims, max_samples_dim, eval_sampl, batch_size in \\
                zip(self.targets, self.ndims, self.nsamples, self.eval_sampl, self.batch_sizes):
''', '''        for n_target in range(len(self.targets)):
            target_dist = self.targets[n_target]
            ndims = target_dist.dims
            max_samples_dim, eval_sampl = self.nsamples[n_target], self.eval_sampl[n_target]
            batch_size = self.batch_sizes[n_target]
''')
h("beh-8", "C40,C42,C43,C45,C46,C47,C41", BE, '''        cols = "dims output_samples " + " ".join([m for m in self.metrics]) + \\
               " NESS method target_d accept_rate proposal_samples proposal_evals target_evals\\n"
''', '''        cols = ["dims", "output_samples"] + list(self.metrics)
        cols += ["NESS", "method", "target_d", "accept_rate", "proposal_samples", "proposal_evals", "target_evals"]
        cols = " ".join(cols) + "\\n"
''')
# ---------------------------------------------------------------- configurations
m("cf-ctorkey", "C44", S + "rejection.py", 'self.bw = params["kde_bw"]', 'self.bw = params["kde_bandwidth"]')
m("cf-import", "C44", S + "rejection.py", "from ais_benchmarks.distributions import *", "from ais_benchmarks.distributions.distributions import CDistribution")
m("cf-abstract", "C44", S + "hi_daisee.py", "    def importance_sample(self, target_d, n_samples, timeout=60):", "    def importance_samples(self, target_d, n_samples, timeout=60):")
m("cf-required", "C44", D + "parametric/CMultivariateNormal.py", "params[\"type\"] = \"normal\"", "params[\"type\"] = params[\"kind\"]")
m("cf-initall", "C44", S + "__init__.py", "from ais_benchmarks.sampling_methods.layered_ais import CLayeredAIS\n", "")
m("cf-loader", "C44", BE, 'bench["nreps"]', 'bench["n_reps"]')
m("cf-yaml", "C44", "ais_benchmarks/benchmark/def_methods.yaml", "type: CLayeredAIS", "type: CLayeredAISS")
h("cfh-1", "C44", S + "rejection.py", 'self.bw = params["kde_bw"]', 'self.bw = params.get("kde_bw", 0.1)')
h("cfh-2", "C44", S + "multi_nested.py", "from ais_benchmarks.distributions import *", "from ais_benchmarks.distributions import CMultivariateNormal, CKernelDensity, CMultivariateUniform, CDistribution, CMixtureModel, CGaussianMixtureModel")

# ---------------------------------------------------------------- distributions
NO = D + "parametric/CMultivariateNormal.py"
UN = D + "parametric/CMultivariateUniform.py"
DE = D + "parametric/CMultivariateDelta.py"
EX = D + "parametric/CMultivariateExponential.py"
MI = D + "mixture/CMixtureModel.py"
GM = D + "mixture/CGaussianMixtureModel.py"
KD = D + "nonparametric/CKernelDensity.py"
NN = D + "nonparametric/CNearestNeighbor.py"
BA = D + "rare/banana2d.py"
DB = D + "distributions.py"
BD = D + "benchden/"
m("di-no-stale-inv", "C21", NO, "        self.inv_cov = np.linalg.inv(cov)\n", "        if not hasattr(self, 'inv_cov'):\n            self.inv_cov = np.linalg.inv(cov)\n")
m("di-no-stale-det", "C21", NO, "        self.term2 = - 0.5 * self.log_det\n", "        self.term2 = - 0.5 * np.log(np.linalg.det(self.params['sigma']))\n")
m("di-no-loc", "C21,C22", NO, "        self.loc = mean\n", "        self.params['mean'] = mean\n        if self.loc is None:\n            self.loc = mean\n")
m("di-no-scale", "C22", NO, "        self.scale = cov\n", "        if self.scale is None:\n            self.scale = cov\n")
m("di-no-mean-params", "C22", NO, "multivariate_normal(self._loc.flatten(), self._scale", "multivariate_normal(np.array(self.params['mean']).flatten(), self._scale")
m("di-no-chol", "C22", NO, "        return np.random.multivariate_normal(self._loc.flatten(), self._scale, size=n_samples)", "        return self._loc.flatten() + np.random.standard_normal((n_samples, self.dims)) @ self._scale")
m("di-no-diag", "C22", NO, "        return np.random.multivariate_normal(self._loc.flatten(), self._scale, size=n_samples)", "        return np.random.normal(self._loc.flatten(), np.sqrt(np.diag(self._scale)), size=(n_samples, self.dims))")
m("di-no-term1", "C21", NO, "self.term1 = - 0.5 * self.dims * np.log(np.pi * 2)", "self.term1 = - 0.5 * np.log(np.pi * 2)")
m("di-no-term3", "C21", NO, "np.transpose(diff, axes=(0, 2, 1)) @ self.inv_cov @ diff", "np.transpose(diff, axes=(0, 2, 1)) @ np.diag(np.diag(self.inv_cov)) @ diff")
m("di-no-support", "C25", NO, 'params["mean"] + np.sqrt(np.diag(params["sigma"])) * 6.0', 'params["mean"] + np.diag(params["sigma"]) * 6.0')
m("di-no-support5", "C25", NO, 'params["mean"] - np.sqrt(np.diag(params["sigma"])) * 6.0', 'params["mean"] - np.sqrt(np.diag(params["sigma"])) * 5.0')
m("di-no-aliased", "C26", NO, "        diff = (self._loc.reshape(1, self.dims) - samples).reshape(len(samples), self.dims, 1)", "        samples -= self._loc.reshape(1, self.dims)\n        diff = samples.reshape(len(samples), self.dims, 1)")
m("di-no-n1", "C27", NO, "        return (self.term1 + self.term2 + term3).reshape(len(samples))", "        return self.term1 + self.term2 + term3.squeeze()")
m("di-no-check", "C28", NO, '        self._check_param(params, "sigma")\n', '')
m("di-no-prob-floor", "C20", NO, "        return np.exp(self.log_prob(samples))", "        return np.maximum(np.exp(self.log_prob(samples)), 1e-300)")
m("di-no-cache", "C26", NO, "        return np.exp(self.log_prob(samples))", "        if getattr(self, '_pts', None) is not samples:\n            self._pts, self._val = samples, np.exp(self.log_prob(samples))\n        return self._val")
h("dih-no-solve", "C20,C21,C26,C27", NO, "np.transpose(diff, axes=(0, 2, 1)) @ self.inv_cov @ diff", "np.transpose(diff, axes=(0, 2, 1)) @ (self.inv_cov @ diff)")
h("dih-no-einsum", "C20,C21,C26,C27", NO, "        term3 = -0.5 * (np.transpose(diff, axes=(0, 2, 1)) @ self.inv_cov @ diff)\n", "        flat = diff.reshape(len(samples), self.dims)\n        term3 = -0.5 * np.sum((flat @ self.inv_cov) * flat, axis=1)\n")
h("dih-no-const", "C20,C21", NO, ["        self.term1 = - 0.5 * self.dims * np.log(np.pi * 2)\n", "self.term1 + self.term2 + term3"], ["", "-0.5 * (self.dims * np.log(2 * np.pi) + self.log_det) + term3"])
h("dih-no-prop", "C21,C22", NO, "self._loc.flatten(), self._scale, size", "self.loc.reshape(-1), self.scale, size")
h("dih-no-local", "C21,C25", NO, ['            params["support"] = np.array([params["mean"] - np.sqrt(np.diag(params["sigma"])) * 6.0,\n                                          params["mean"] + np.sqrt(np.diag(params["sigma"])) * 6.0])'], ['            margin = 6.0 * np.sqrt(np.diagonal(params["sigma"]))\n            params["support"] = np.stack((params["mean"] - margin, params["mean"] + margin))'])
m("di-un-vol", "C21", UN, "(self._scale * 2) ** self.dims", "(self._scale * 2)")
m("di-un-vol2", "C21,C25", UN, "self.volume = np.prod([self._scale * 2])", "self.volume = np.prod([self._scale]) * 2")
m("di-un-log", "C20", UN, "self.logprob_val = np.log(self.prob_val)", "self.logprob_val = -np.sum(np.log(self._scale * 2))")
m("di-un-any", "C20,C21", UN, "        inliers = np.all(np.logical_and(min_val < samples, samples <= max_val), axis=1)\n        res = np.full(len(samples), self.logprob_val)", "        inliers = np.any(np.logical_and(min_val < samples, samples <= max_val), axis=1)\n        res = np.full(len(samples), self.logprob_val)")
m("di-un-edge", "C20", UN, "        inliers = np.all(np.logical_and(min_val < samples, samples <= max_val), axis=1)\n        res = np.full(len(samples), self.logprob_val)", "        inliers = np.all(np.logical_and(min_val <= samples, samples <= max_val), axis=1)\n        res = np.full(len(samples), self.logprob_val)")
m("di-un-outval", "C20,C21", UN, "= -np.inf", "= -1e30")
m("di-un-sample", "C22,C25", UN, "        minval = self._loc - self._scale\n", "        minval = self._loc\n")
m("di-un-sample-params", "C22", UN, "        minval = self._loc - self._scale\n        maxval = self._loc + self._scale\n", "        minval, maxval = self.support()\n")
m("di-un-size", "C23", UN, "size=(n_samples, self.dims))", "size=(n_samples, len(self._scale)))")
m("di-un-support", "C25", UN, 'params["center"] + params["radius"]]', 'params["radius"]]')
m("di-un-integral", "C25", UN, "np.prod(np.maximum(end - ini, 0))", "np.maximum(np.prod(end - ini), 0)")
m("di-un-integral2", "C25", UN, "np.minimum(b, self.support_vals[1])", "b")
h("dih-un-box", "C20,C21,C22,C25,C26", UN, "        minval = self._loc - self._scale\n        maxval = self._loc + self._scale\n        res = np.random.uniform(low=minval, high=maxval, size=(n_samples, self.dims))\n        return res", "        u = np.random.uniform(size=(n_samples, self.dims))\n        return self._loc - self._scale + 2 * self._scale * u")
h("dih-un-where", "C20,C21,C26,C27", UN, "        res = np.full(len(samples), self.prob_val)\n        res[np.logical_not(inliers.flatten())] = 0\n        return res", "        return np.where(inliers, self.prob_val, 0.0)")
h("dih-un-abs", "C20,C21,C26,C27", UN, "        res = np.full(len(samples), self.prob_val)\n        res[np.logical_not(inliers.flatten())] = 0\n        return res", "        return inliers * self.prob_val")
h("dih-un-helper", "C20,C21,C25,C26,C27", UN, ["        min_val = self._loc - self._scale\n        max_val = self._loc + self._scale\n        # Select the inliers if all the coordinates are in range\n        inliers = np.all(np.logical_and(min_val < samples, samples <= max_val), axis=1)\n", "        min_val = self._loc - self._scale\n        max_val = self._loc + self._scale\n\n        # Select the inliers if all the coordinates are in range\n        inliers = np.all(np.logical_and(min_val < samples, samples <= max_val), axis=1)\n", "    def condition("], ["        inliers = self._inside(samples)\n", "        inliers = self._inside(samples)\n", "    def _inside(self, points):\n        lo, hi = self._loc - self._scale, self._loc + self._scale\n        return ((points > lo) & (points <= hi)).all(axis=1)\n\n    def condition("])
m("di-de-any", "C21", DE, "        inliers = np.all(np.isclose(self.loc, samples), axis=1)\n        res = np.full(len(samples), 0.0)", "        inliers = np.any(np.isclose(self.loc, samples), axis=1)\n        res = np.full(len(samples), 0.0)")
m("di-de-one", "C20,C21", DE, "        res[inliers.flatten()] = np.inf\n        return res\n\n    def condition", "        res[inliers.flatten()] = 1.0\n        return res\n\n    def condition")
m("di-de-zero", "C20", DE, "np.full(len(samples), -np.inf)", "np.full(len(samples), 0.0)")
m("di-de-sample", "C22", DE, "np.full((n_samples, self.dims), self.loc)", "np.full((n_samples, self.dims), self.params['center'])")
m("di-de-transposed", "C23", DE, "np.full((n_samples, self.dims), self.loc)", "np.full((self.dims, n_samples), np.reshape(self.loc, (-1, 1)))")
m("di-ex-logscale", "C21", EX, "        self.log_scale = np.log(self.scale)\n", "        if not hasattr(self, 'log_scale'):\n            self.log_scale = np.log(self.scale)\n")
m("di-ex-scale", "C22", EX, "np.random.exponential(self.loc,", "np.random.exponential(self.scale,")
m("di-ex-loc", "C22", EX, "        self.loc = mean\n", "        if self.loc is None:\n            self.loc = mean\n")
m("di-ex-any", "C21", EX, "np.all(samples > 0, axis=1)", "np.any(samples > 0, axis=1)")
m("di-ex-first", "C21", EX, "self.scale.reshape(1, self.dims) * samples[inliers]", "self.scale.reshape(1, self.dims) * samples[:len(samples[inliers])]")
m("di-ex-sum0", "C21", EX, "res_in = np.sum(res_in, axis=1)", "res_in = np.max(res_in, axis=1)")
m("di-ex-support", "C25", EX, "np.zeros_like(params[\"mean\"]), 4 * params", "-np.ones_like(params[\"mean\"]), 4 * params")
h("dih-ex-sum", "C20,C21,C26,C27", EX, "        res_in = self.log_scale.reshape(1, self.dims) - self.scale.reshape(1, self.dims) * samples[inliers]\n        res_in = np.sum(res_in, axis=1)\n", "        res_in = np.sum(self.log_scale) - samples[inliers] @ self.scale\n")
h("dih-ex-div", "C20,C21,C26,C27", EX, "self.scale.reshape(1, self.dims) * samples[inliers]", "samples[inliers] / self.loc")
m("di-mi-nan", "C24", MI, "np.logical_or(np.isnan(weights), weights <= 0)", "weights <= 0")
m("di-mi-neg", "C24", MI, "np.logical_or(np.isnan(weights), weights <= 0)", "np.isnan(weights)")
m("di-mi-norm", "C24", MI, "            weights = weights / weights.sum()\n", "            weights = weights / max(weights.sum(), 1)\n")
m("di-mi-max", "C24", MI, "            weights = weights / weights.sum()\n", "            weights = weights / weights.max()\n")
m("di-mi-equal", "C24", MI, "np.full(len(weights), 1 / len(weights))", "np.ones(len(weights))")
m("di-mi-keep", "C24", MI, "        self.set_weights(np.array(weights))\n", "        if not np.isclose(np.sum(weights), 1):\n            self.set_weights(np.array(weights))\n        else:\n            self.weights = np.array(weights)\n")
m("di-mi-reverse", "C24", MI, "            q = self.models[idx]\n", "            q = self.models[idx - 1]\n")
m("di-mi-one-comp", "C24", MI, ["            idx = np.argmax(np.random.multinomial(1, self.weights))\n", "        for _ in range(n_samples):\n"], ["", "        idx = np.argmax(np.random.multinomial(1, self.weights))\n        for _ in range(n_samples):\n"])
m("di-mi-unif-comp", "C24", MI, "np.argmax(np.random.multinomial(1, self.weights))", "np.random.randint(len(self.models))")
m("di-mi-argmax", "C24", MI, "np.argmax(np.random.multinomial(1, self.weights))", "np.argmax(self.weights)")
m("di-mi-dup", "C24", MI, "            x = q.sample(1)\n            res = np.concatenate((res, x)) if res.size else x\n        return res", "            x = q.sample(1)\n            res = np.concatenate((res, x)) if res.size else x\n        return np.repeat(x, n_samples, axis=0)")
m("di-mi-noweight", "C20,C21,C24", MI, "b=self.weights.reshape(-1, 1), axis=0", "axis=0")
m("di-mi-mask", "C20,C21,C24", MI, "likelihood < np.finfo(likelihood.dtype).min\n        likelihood[zero_mask] = np.finfo(likelihood.dtype).min", "likelihood < np.finfo(likelihood.dtype).tiny\n        likelihood[zero_mask] = np.finfo(likelihood.dtype).tiny")
m("di-mi-mean", "C20,C21", MI, "likelihood = np.sum(likelihood, axis=0)", "likelihood = np.mean(likelihood, axis=0)")
m("di-mi-skip-last", "C20,C21", MI, "        for i in range(len(self.models)):\n            llikelihood[i]", "        for i in range(len(self.models) - 1):\n            llikelihood[i]")
m("di-mi-cum", "C20,C21", MI, "            likelihood[i] = np.exp(", "            likelihood[i] = likelihood[i - 1] + np.exp(")
m("di-mi-rows", "C23", MI, "            x = q.sample(1)\n", "            x = q.sample(n_samples)\n")
m("di-mi-short", "C23", MI, "for _ in range(n_samples):\n            # Select", "for _ in range(n_samples - 1):\n            # Select")
m("di-mi-check", "C28", MI, '        self._check_param(params, "weights")\n', '')
h("dih-mi-choice", "C24,C23,C26", MI, "idx = np.argmax(np.random.multinomial(1, self.weights))", "idx = np.random.choice(len(self.models), p=self.weights)")
h("dih-mi-list", "C23,C24,C26", MI, ["        res = np.array([])\n", "            x = q.sample(1)\n            res = np.concatenate((res, x)) if res.size else x\n        return res"], ["        res = []\n", "            res.append(q.sample(1)[0])\n        return np.array(res)"])
h("dih-mi-enum", "C20,C21,C24,C26,C27", MI, "        for i in range(len(self.models)):\n            likelihood[i] = np.exp(self.models[i].log_prob(data).flatten()) * self.weights[i]\n", "        for i, (model, weight) in enumerate(zip(self.models, self.weights)):\n            likelihood[i] = weight * np.exp(model.log_prob(data).flatten())\n")
h("dih-mi-logw", "C20,C21,C24,C27", MI, "        logprob = logsumexp(llikelihood, b=self.weights.reshape(-1, 1), axis=0)\n", "        logprob = np.log(np.sum(np.exp(llikelihood) * self.weights.reshape(-1, 1), axis=0))\n")
h("dih-mi-dot", "C20,C21,C24,C27", MI, ["np.exp(self.models[i].log_prob(data).flatten()) * self.weights[i]", "likelihood = np.sum(likelihood, axis=0)"], ["np.exp(self.models[i].log_prob(data).flatten())", "likelihood = self.weights @ likelihood"])
h("dih-mi-where", "C24", MI, ["            weights[nan_indices] = 0\n"], ["            weights = np.where(nan_indices, 0, weights)\n"])
h("dih-mi-total", "C24", MI, ["        if weights.sum() <= 0:\n", "            weights = weights / weights.sum()\n"], ["        total = np.sum(weights)\n        if not total > 0:\n", "            weights = weights / total\n"])
m("di-gm-sigma", "C21", GM, '"sigma": np.diag(cov)', '"sigma": np.diag(cov ** 2)')
m("di-gm-weights", "C21,C24", GM, 'if "weights" in params.keys()', 'if "weight" in params.keys()')
m("di-gm-default", "C21", GM, "(1.0 / len(self.means)) * np.array([1] * len(self.means))", "np.linspace(1, 2, len(self.means))")
m("di-gm-first", "C21", GM, '{"mean": mean, "sigma": np.diag(cov)}', '{"mean": mean, "sigma": np.diag(self.sigmas[0])}')
m("di-gm-sample", "C23", GM, "return self.gmm.sample(nsamples)", "return self.gmm.sample()")
m("di-gm-best", "C20", GM, "return self.gmm.log_prob(samples)", "return np.max([np.log(w) + q.log_prob(samples) for w, q in zip(self.weights, self.models)], axis=0)")
m("di-kd-bw", "C21", KD, "CKernel(x, self.kernel_bw, self.kernel_f)", "CKernel(x, 1 / self.kernel_bw, self.kernel_f)")
m("di-kd-weights", "C21", KD, '"models": models, "weights": self.weights,', '"models": models, "weights": np.ones(len(models)),')
m("di-kd-log", "C20", KD, "return self.model.log_prob(data)", "return np.log(self.model.prob(data) + 1e-12)")
m("di-ck-scale", "C21", DB, "self.kernel((x - self.loc) * self.bw) * self.bw", "self.kernel((x - self.loc) * self.bw)")
m("di-ck-sum", "C21", DB, "np.prod(self(x), axis=-1)", "np.mean(self(x), axis=-1)")
m("di-ck-tri", "C21", DB, "        res = 1 - np.abs(u)\n        mask = np.logical_or(u < -1, u > 1)\n", "        res = 1 - np.abs(u)\n        mask = u > 1\n")
m("di-ck-epa", "C21", DB, ".75 * (1 - u * u)", ".75 * (1 - np.abs(u))")
m("di-ck-normal", "C21", DB, "np.e ** (-0.5 * u * u)", "np.e ** (-u * u)")
m("di-ck-unif", "C21", DB, "np.ones_like(u) * 0.5", "np.ones_like(u)")
m("di-ck-epa-mask", "C21", DB, "        res = .75 * (1 - u * u)\n        mask = np.logical_or(u < -1, u > 1)\n        res[mask] = 0\n", "        res = .75 * (1 - u * u)\n        res = np.abs(res)\n")
h("dih-ck-log", "C20,C21", DB, "return np.log(self.prob(x))", "return np.sum(np.log(self(x)), axis=-1)")
h("dih-ck-abs", "C21", DB, "        res = .75 * (1 - u * u)\n        mask = np.logical_or(u < -1, u > 1)\n        res[mask] = 0\n        return res", "        return np.maximum(.75 * (1 - u ** 2), 0)")
h("dih-ck-clip", "C21", DB, "        res = 1 - np.abs(u)\n        mask = np.logical_or(u < -1, u > 1)\n        res[mask] = 0\n        return res", "        return np.clip(1 - np.abs(u), 0, 1)")
h("dih-ck-div", "C21", DB, "0.3989422804 * np.e ** (-0.5 * u * u)", "0.3989422804 * np.exp(-(u ** 2) / 2)")
m("di-nn-exp", "C20", NN, "return np.exp(self.log_prob(data))", "return self.log_prob(data)")
m("di-nn-p", "C22", NN, "size=nsamples, p=self.weights)", "size=nsamples)")
m("di-nn-norepl", "C22", NN, "size=nsamples, p=self.weights)", "size=nsamples, replace=False, p=self.weights)")
m("di-nn-one", "C23", NN, "idxs = np.random.choice(len(self.weights), size=nsamples, p=self.weights)", "idxs = np.random.choice(len(self.weights), p=self.weights)")
m("di-ba-const", "C21", BA, "x1 * x1 - 100", "x1 * x1 - 10")
m("di-ba-swap", "C21", BA, "samples[:, 0, :], samples[:, 1, :]", "samples[:, 1, :], samples[:, 0, :]")
m("di-ba-square", "C21", BA, "(x2 + 0.03 * (x1 * x1 - 100))**2", "(x2**2 + 0.03 * (x1 * x1 - 100))")
m("di-ba-one", "C27", BA, "            samples = samples.reshape(1, self.dims, 1)\n", "            samples = samples.reshape(-1, self.dims, 1)[:, ::-1]\n")
m("di-ba-support", "C25", BA, "[[-10, -10], [10, 10]]", "[[-10, 10], [-10, 10]]")
h("dih-ba-pow", "C20,C21,C27", BA, "-0.5 * (0.03 * x1 * x1 + (x2 + 0.03 * (x1 * x1 - 100))**2)", "-(0.03 * x1 ** 2 + np.square(0.03 * x1 ** 2 - 3.0 + x2)) / 2")
m("di-b3-log", "C21", BD + "d03_maxwell.py", "np.log(samples_in) - ((samples_in * samples_in) / 2)", "np.log(samples_in) - (samples_in * samples_in)")
m("di-b3-prob", "C21", BD + "d03_maxwell.py", "        res[inliers] = np.exp(self.log_prob(samples[inliers]).flatten())", "        res[inliers] = np.exp(self.log_prob(samples).flatten()[:len(samples[inliers])])")
m("di-b3-in", "C20,C21", BD + "d03_maxwell.py", "res = np.full(len(samples), -np.inf)", "res = np.full(len(samples), np.log(1e-3))")
m("di-b4-half", "C21", BD + "d04_laplace.py", "np.log(.5)", "np.log(2)")
m("di-b4-sq", "C21", BD + "d04_laplace.py", "np.fabs(samples)", "samples * np.sign(samples + 1)")
m("di-b10-pow", "C21", BD + "d10_symmetric_pareto.py", "** (3/2)", "** (3//2)")
m("di-b10-abs", "C21", BD + "d10_symmetric_pareto.py", "np.fabs(samples)", "samples * samples")
m("di-b1-radius", "C21,C25", BD + "d01_uniform.py", 'params["radius"] = np.array([.5])', 'params["radius"] = np.array([1.])')
m("di-b2-mean", "C21", BD + "d02_exponential.py", 'params["mean"] = np.array([1])', 'params["mean"] = np.array([2])')
h("dih-b10", "C20,C21,C27", BD + "d10_symmetric_pareto.py", "1 / (4 * (1 + np.fabs(samples)) ** (3/2))", "0.25 * np.power(1 + np.abs(samples), -1.5)")
h("dih-b4", "C20,C21,C27", BD + "d04_laplace.py", "        res = np.log(.5) - np.fabs(samples)\n", "        res = -np.abs(samples) - np.log(2)\n")
h("dih-b3", "C20,C21,C27", BD + "d03_maxwell.py", "        res[inliers] = np.exp(self.log_prob(samples[inliers]).flatten())", "        x = samples[inliers].flatten()\n        res[inliers] = x * np.exp(-x ** 2 / 2)")
m("di-db-checkshape", "C27", DB, "            x = x.reshape(1, self.dims)\n", "            x = x.reshape(-1, 1)\n")
m("di-db-support", "C25", DB, "np.array(self.support_vals).reshape(2, self.dims)", "np.array(self.support_vals).reshape(self.dims, 2).T")
m("di-db-logonly", "C20", DB, "return np.exp(self.loglikelihood_f(x))", "return self.loglikelihood_f(x)")
m("di-db-checkp", "C28", DB, '        assert param in params, "%s \'%s\' parameter is required" % (self.__class__.__name__, param)\n', '        assert params.get(param, True) is not None, "%s \'%s\' parameter is required" % (self.__class__.__name__, param)\n')
m("di-db-order", "C28", DB, '        self._check_param(params, "support")\n\n', '\n')
h("dih-db-shape", "C27,C21", DB, "        if len(x.shape) == 1:\n            x = x.reshape(1, self.dims)\n", "        if x.ndim == 1:\n            x = x[np.newaxis, :].reshape(1, self.dims)\n")
h("dih-db-support", "C25", DB, "np.array(self.support_vals).reshape(2, self.dims)", "np.reshape(self.support_vals, (2, -1))")

# ---------------------------------------------------------------- metrics
DV = "ais_benchmarks/metrics/divergences.py"
PF = "ais_benchmarks/metrics/performance.py"
ST = "ais_benchmarks/metrics/statistics.py"
m("me-kl-swap", "C30", DV, "self.compute_from_log_probs(p_samples_logprob,\n                                                        q_samples_logprob)", "self.compute_from_log_probs(q_samples_logprob,\n                                                        p_samples_logprob)")
m("me-kl-noinl", "C30", DV, "-= np.logaddexp.reduce(q_samples_logprob[inliers])", "-= np.logaddexp.reduce(q_samples_logprob)")
m("me-kl-or", "C30", DV, "inliers = np.logical_and(p_samples_logprob > -np.inf,\n                                 q_samples_logprob > -np.inf)", "inliers = np.logical_or(p_samples_logprob > -np.inf,\n                                 q_samples_logprob > -np.inf)")
m("me-kl-exp", "C30", DV, "np.exp(p_samples_logprob[inliers]) * (p_samples", "np.exp(q_samples_logprob[inliers]) * (p_samples")
m("me-kl-mean", "C30", DV, "self.value = np.sum(self.compute_from_log_probs(", "self.value = np.mean(self.compute_from_log_probs(")
m("me-kl-clip", "C30", DV, "        res[np.isnan(q_samples_logprob[inliers])] = np.inf\n", "        res[res < 0] = 0\n        res[np.isnan(q_samples_logprob[inliers])] = np.inf\n")
m("me-kl-thr", "C30", DV, "                                 q_samples_logprob > -np.inf)", "                                 q_samples_logprob > -50)")
m("me-js-noq", "C31", DV, "        q_samples_prob[inliers] = q_samples_prob[inliers] / np.sum(q_samples_prob[inliers])\n\n        m_", "        q_samples_prob[inliers] = q_samples_prob[inliers] / np.sum(q_samples_prob)\n\n        m_")
m("me-js-log", "C31", DV, "self.log2 = np.log(2)", "self.log2 = np.log(10)")
m("me-js-ret", "C31", DV, "return res.sum() / self.log2", "return res.sum()")
m("me-js-nan", "C31", DV, "        inliers = np.logical_and(inliers, np.logical_not(np.isnan(q_samples_prob)))\n        inliers = np.logical_and(inliers, np.logical_not(np.isnan(p_samples_prob)))\n", "        inliers = np.logical_and(p_samples_prob >= 0, q_samples_prob >= 0)\n")
m("me-js-or", "C31", DV, "inliers = np.logical_and(p_samples_prob > 0, q_samples_prob > 0)\n        inliers = np", "inliers = p_samples_prob > 0\n        inliers = np")
m("me-js-mid", "C31", DV, "0.5 * (p_samples_prob[inliers] + q_samples_prob[inliers])", "np.sqrt(p_samples_prob[inliers] * q_samples_prob[inliers])")
m("me-js-before", "C31", DV, "        m_samples_prob = 0.5 * (p_samples_prob[inliers] + q_samples_prob[inliers])\n", "        m_samples_prob = 0.25 * p_samples_prob[inliers] + 0.75 * q_samples_prob[inliers]\n")
m("me-js-half", "C31", DV, "              0.5 * q_samples_prob[inliers] * np.log(q_samples_prob[inliers] / m_samples_prob)", "              0.5 * q_samples_prob[inliers] * np.log(p_samples_prob[inliers] / m_samples_prob)")
m("me-js-mut", "C31", DV, "        q_samples_prob = q.prob(samples)\n\n        # Filter zero prob values and nans", "        q_samples_prob = q.prob(samples)\n        q_samples_prob = q_samples_prob / np.sum(q_samples_prob) + 1e-9\n\n        # Filter zero prob values and nans")
m("me-ev-q", "C32", ST, "        samples_qprob /= np.sum(samples_qprob)\n", "        samples_qprob /= np.sum(samples_pprob)\n")
m("me-ev-noq", "C32", ST, "        samples_qprob /= np.sum(samples_qprob)\n", "")
m("me-ev-mean", "C32", ST, "EV_Q = np.sum(samples * samples_qprob.reshape(-1,1), axis=0)", "EV_Q = np.mean(samples * samples_qprob.reshape(-1,1), axis=0)")
m("me-ev-swap", "C32", ST, "samples_qprob = q.prob(samples)", "samples_qprob = np.exp(p.log_prob(samples))")
m("me-ev-abs", "C32", ST, "res = (EV_P - EV_Q) @ np.transpose(EV_P - EV_Q)", "res = np.sum(np.abs(EV_P - EV_Q))")
m("me-ev-store", "C32", ST, "        self.value = res\n", "        self.value = np.sqrt(res)\n")
m("me-ev-axis", "C32", ST, "EV_P = np.sum(samples * samples_pprob.reshape(-1,1), axis=0)", "EV_P = np.sum(samples * samples_pprob.reshape(-1,1))")
m("me-t-reset", "C33", PF, "        self.t_ini = 0\n        self.t_end = 0\n        self.value = 0\n\n\nclass", "        self.t_ini = 0\n        self.t_end = 0\n\n\nclass")
m("me-m-reset", "C33", PF, "        self.mem_end = 0\n        self.mem_cum = 0\n        self.value = 0\n        gc", "        self.mem_end = 0\n        self.value = 0\n        gc")
m("me-m-last", "C33", PF, "self.mem_cum += self.mem_end - self.mem_ini", "self.mem_cum = self.mem_end - self.mem_ini")
m("me-m-max", "C33", PF, "self.mem_cum += self.mem_end - self.mem_ini", "self.mem_cum += max(self.mem_end - self.mem_ini, 0)")
m("me-m-first", "C33", PF, "        self.mem_ini = self.hpy.heap().size\n", "        if self.mem_ini == 0:\n            self.mem_ini = self.hpy.heap().size\n")
m("me-t-first", "C33", PF, "    def pre(self, **kwargs):\n        self.t_ini = timer()\n", "    def pre(self, **kwargs):\n        if not self.t_ini:\n            self.t_ini = timer()\n")
m("me-div-reset", "C33", DV, "    def reset(self, **kwargs):\n        self.value = 0\n", "    def reset(self, **kwargs):\n        pass\n")
m("me-m-double", "C33", PF, "        self.value = self.mem_cum / 10**6\n", "        self.value += self.mem_cum / 10**6\n")
h("meh-kl-direct", "C30", DV, "        p_samples_logprob[inliers] -= np.logaddexp.reduce(p_samples_logprob[inliers])\n        q_samples_logprob[inliers] -= np.logaddexp.reduce(q_samples_logprob[inliers])\n\n        # Compute discrete KL for each sample\n        res = np.exp(p_samples_logprob[inliers]) * (p_samples_logprob[inliers] - q_samples_logprob[inliers])\n        res[np.isnan(q_samples_logprob[inliers])] = np.inf\n        return res", "        logp, logq = p_samples_logprob[inliers], q_samples_logprob[inliers]\n        logp = logp - np.logaddexp.reduce(logp)\n        logq = logq - np.logaddexp.reduce(logq)\n        res = np.exp(logp) * (logp - logq)\n        res[np.isnan(logq)] = np.inf\n        return res")
h("meh-js-local", "C31", DV, "        self.value = res.sum() / self.log2\n        return res.sum() / self.log2", "        self.value = np.sum(res) / np.log(2)\n        return self.value")
h("meh-js-nonorm", "C31", DV, "        # Renormalize to avoid precision issues\n        m_samples_prob = m_samples_prob / np.sum(m_samples_prob)\n", "")
h("meh-js-pq", "C31", DV, "        p_samples_prob[inliers] = p_samples_prob[inliers] / np.sum(p_samples_prob[inliers])\n        q_samples_prob[inliers] = q_samples_prob[inliers] / np.sum(q_samples_prob[inliers])\n\n        m_samples", "        p_samples_prob, q_samples_prob = p_samples_prob[inliers], q_samples_prob[inliers]\n        inliers = np.ones(len(p_samples_prob), dtype=bool)\n        p_samples_prob = p_samples_prob / np.sum(p_samples_prob)\n        q_samples_prob = q_samples_prob / np.sum(q_samples_prob)\n\n        m_samples")
h("meh-ev-diff", "C32", ST, "        res = (EV_P - EV_Q) @ np.transpose(EV_P - EV_Q)\n", "        diff = EV_P - EV_Q\n        res = np.sum(diff ** 2)\n")
h("meh-ev-avg", "C32", ST, "        EV_P = np.sum(samples * samples_pprob.reshape(-1,1), axis=0)\n", "        EV_P = samples_pprob @ samples\n")
h("meh-t-delta", "C33", PF, "        self.value += self.t_end - self.t_ini - self.overhead\n", "        elapsed = self.t_end - self.t_ini\n        self.value = self.value + (elapsed - self.overhead)\n")
h("meh-m-direct", "C33", PF, ["        self.mem_cum += self.mem_end - self.mem_ini\n        self.value = self.mem_cum / 10**6\n"], ["        used = self.mem_end - self.mem_ini\n        self.mem_cum += used\n        self.value += used / 10**6\n"])
h("dih-no-einsum2", "C20,C21,C26,C27", NO, "        term3 = -0.5 * (np.transpose(diff, axes=(0, 2, 1)) @ self.inv_cov @ diff)\n", "        flat = diff[:, :, 0]\n        term3 = -0.5 * np.einsum('ni,ij,nj->n', flat, self.inv_cov, flat)\n")
h("dih-no-solve2", "C20,C21,C26,C27", NO, "np.transpose(diff, axes=(0, 2, 1)) @ self.inv_cov @ diff", "np.transpose(diff, axes=(0, 2, 1)) @ np.linalg.solve(self._scale, diff)")
h("dih-no-chol", "C20,C22,C23,C26", NO, "        return np.random.multivariate_normal(self._loc.flatten(), self._scale, size=n_samples)", "        root = np.linalg.cholesky(self._scale)\n        return self._loc.reshape(1, -1) + np.random.standard_normal((n_samples, self.dims)) @ root.T")
h("dih-no-slogdet", "C20,C21", NO, "        self.log_det = np.log(self.det)\n", "        self.log_det = np.linalg.slogdet(cov)[1]\n")
m("di-no-einsum", "C21", NO, "        term3 = -0.5 * (np.transpose(diff, axes=(0, 2, 1)) @ self.inv_cov @ diff)\n", "        flat = diff[:, :, 0]\n        term3 = -0.5 * np.einsum('ni,ii,ni->n', flat, self.inv_cov, flat)\n")
h("dih-no-lazy", "C20,C21,C26,C27,C14", NO, ["        self.inv_cov = np.linalg.inv(cov)\n", "        term3 = -0.5"], ["        self.inv_cov = None\n", "        if self.inv_cov is None:\n            self.inv_cov = np.linalg.inv(self._scale)\n        term3 = -0.5"])
m("di-no-lazystale2", "C21", NO, ["        super(CMultivariateNormal, self).__init__(params)\n", "        self.inv_cov = np.linalg.inv(cov)\n", "        term3 = -0.5"], ["        super(CMultivariateNormal, self).__init__(params)\n        self.inv_cov = None\n", "", "        if self.inv_cov is None:\n            self.inv_cov = np.linalg.inv(self._scale)\n        term3 = -0.5"])
m("di-no-lazystale", "C26", NO, ["    def prob(self, samples):\n"], ["    def prob(self, samples):\n        self._loc = self._loc + 0.5\n"])

# ---- second round, samplers
MP, DM, LA, RJ, MH, NS, MN, BS = (S + x for x in ("m_pmc.py", "dm_ais.py", "layered_ais.py", "rejection.py", "metropolis_hastings.py", "nested.py", "multi_nested.py", "base.py"))
m("r2-mp-uni", "C15", MP, "alpha_d = self.wproposals[d]", "alpha_d = 1 / self.N")
m("r2-mp-drop", "C15", MP, "            for i in range(self.K):\n                cov +=", "            for i in range(1, self.K):\n                cov +=")
m("r2-mp-clip", "C06", MP, "new_weights[i] = np.exp(pi_x - q_x)", "new_weights[i] = np.exp(min(pi_x - q_x, 10))")
m("r2-mp-stale", "C15", MP, "            self.wproposals[d] = np.sum(weights * posteriors[d])\n", "            self.wproposals[d] = 0.5 * self.wproposals[d] + 0.5 * np.sum(weights * posteriors[d])\n")
m("r2-mp-allw", "C15", MP, "            self.adapt(new_samples, new_weights, rho)\n\n            self.samples = np.concatenate((self.samples, new_samples)) if self.samples.size else new_samples\n            self.weights = np.concatenate((self.weights, new_weights)) if self.weights.size else new_weights\n", "            self.samples = np.concatenate((self.samples, new_samples)) if self.samples.size else new_samples\n            self.weights = np.concatenate((self.weights, new_weights)) if self.weights.size else new_weights\n            self.adapt(self.samples[:self.K], self.weights[:self.K], rho)\n")
m("r2-mp-norm1", "C15,C08", MP, "        self.wproposals = self.wproposals / self.wproposals.sum()\n        self.model.set_weights(self.wproposals)\n", "        self.model.set_weights(self.wproposals)\n        self.wproposals = np.full(self.N, 1 / self.N)\n")
m("r2-mp-early", "C06", MP, "            new_weights = new_weights / new_weights.sum()\n", "            new_weights = new_weights / max(new_weights.sum(), 1)\n")
m("r2-mp-mod0", "C04", MP, ["        # Set uniform weights\n        self.wproposals = t_tensor([1/self.N] * self.N)\n\n", "\"dims\": self.ndims, \"support\": [self.space_min, self.space_max]})\n\n    def adapt"], ["", "\"dims\": self.ndims, \"support\": [self.space_min, self.space_max]})\n        self.wproposals = t_tensor([1/self.N] * self.N)\n\n    def adapt"])
h("r2h-mp-order", "C15,C06,C03,C08", MP, "            self.adapt(new_samples, new_weights, rho)\n\n            self.samples = np.concatenate((self.samples, new_samples)) if self.samples.size else new_samples\n            self.weights = np.concatenate((self.weights, new_weights)) if self.weights.size else new_weights\n", "            self.samples = np.concatenate((self.samples, new_samples)) if self.samples.size else new_samples\n            self.weights = np.concatenate((self.weights, new_weights)) if self.weights.size else new_weights\n            self.adapt(new_samples, new_weights, rho)\n")
h("r2h-mp-vec", "C15,C06,C03,C01,C07", MP, "            for i in range(self.K):\n                pi_x = target_d.log_prob(new_samples[i])\n                q_x = self.log_prob(new_samples[i])\n                new_weights[i] = np.exp(pi_x - q_x)\n\n                self._num_pi_evals += 1\n                self._num_q_evals += 1\n\n                # Compute mixture posteriors (eq. 7)\n                for d in range(self.N):\n                    alpha_d = self.wproposals[d]\n                    q_d = self.proposals[d].log_prob(new_samples[i])\n                    rho[d][i] = np.exp(np.log(alpha_d) + q_d - q_x)\n                    self._num_q_evals += 1\n", "            pi_x = target_d.log_prob(new_samples)\n            q_x = self.log_prob(new_samples)\n            new_weights = np.exp(pi_x - q_x)\n            self._num_pi_evals += self.K\n            self._num_q_evals += self.K\n            for d in range(self.N):\n                q_d = self.proposals[d].log_prob(new_samples)\n                rho[d] = np.exp(np.log(self.wproposals[d]) + q_d - q_x)\n                self._num_q_evals += self.K\n")
h("r2h-mp-helper", "C15,C08,C06", MP, ["        # Renormalize proposals weights\n        self.wproposals = self.wproposals / self.wproposals.sum()\n        self.model.set_weights(self.wproposals)\n", "    def _update_model(self):\n        pass"], ["        self._set_mixture_weights(self.wproposals / np.sum(self.wproposals))\n\n    def _set_mixture_weights(self, w):\n        self.wproposals = w\n        self.model.set_weights(w)\n", "    def _update_model(self):\n        pass"])
h("r2h-mp-enum", "C15,C08", MP, ["        for d in range(self.N):\n            # Update mixture weights", "            self.proposals[d].set_moments(mu, cov)\n"], ["        for d, proposal in enumerate(self.proposals):\n            # Update mixture weights", "            proposal.set_moments(mu, cov)\n"])
h("r2h-mp-covsum", "C15", MP, "            for i in range(self.K):\n                cov += weights[i] * posteriors[d][i] * cov_val\n            cov /= self.wproposals[d]\n", "            cov = np.sum(weights * posteriors[d]) * cov_val / self.wproposals[d]\n")
m("r2-dm-after", "C06", DM, ["            # Adaptation\n            self.resample(new_samples, new_weights)\n", "            # Weight samples\n            new_weights = t_tensor([])\n"], ["", "            self.resample(new_samples, target_d.prob(new_samples).reshape(-1))\n            self._num_pi_evals += len(new_samples)\n            # Weight samples\n            new_weights = t_tensor([])\n"])
m("r2-dm-store", "C06", DM, "            elapsed_time = time.time() - t_ini\n\n        return self.samples, self.weights / self.weights.sum()", "            elapsed_time = time.time() - t_ini\n\n        self.weights = self.weights / self.weights.sum()\n        return self.samples, self.weights")
m("r2-dm-cnt", "C02", DM, "                for _ in range(self.K):\n                    s = q.sample()[0]\n                    self._num_q_samples += 1\n", "                self._num_q_samples += 1\n                for _ in range(self.K):\n                    s = q.sample()[0]\n")
m("r2-dm-two", "C02", DM, "s = q.sample()[0]", "s = q.sample(2)[1]")
m("r2-dm-gt", "C07", DM, "while n_samples > len(self.samples) and elapsed_time < timeout:", "while n_samples > len(self.weights) // self.N and elapsed_time < timeout:")
m("r2-dm-skip0", "C03", DM, "                new_weights = np.concatenate((new_weights, w.reshape(-1))) if new_weights.size else w.reshape(-1)\n", "                if w > 0:\n                    new_weights = np.concatenate((new_weights, w.reshape(-1))) if new_weights.size else w.reshape(-1)\n")
m("r2-dm-once", "C06", DM, "            for s in new_samples:\n                w = target_d.prob(s) / self.prob(s)\n", "            q_x = self.prob(new_samples[0])\n            for s in new_samples:\n                w = target_d.prob(s) / q_x\n")
m("r2-dm-model", "C08", DM, "        # Update all N proposals with the DM-PMC update rule\n", "        self.model = CMixtureModel({\"models\": list(self.proposals), \"weights\": t_tensor([1 / len(self.proposals)] * len(self.proposals)),\n                                    \"dims\": self.ndims, \"support\": [self.space_min, self.space_max]})\n        self.proposals = [CMultivariateNormal({\"mean\": q.loc, \"sigma\": q.scale}) for q in self.proposals]\n")
h("r2h-dm-list", "C01,C02,C03,C06,C07,C08", DM, "            new_samples = t_tensor([])\n            for q in self.proposals:\n                for _ in range(self.K):\n                    s = q.sample()[0]\n                    self._num_q_samples += 1\n                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s.reshape(1, -1)\n", "            drawn = []\n            for q in self.proposals:\n                for _ in range(self.K):\n                    drawn.append(q.sample()[0])\n                    self._num_q_samples += 1\n            new_samples = np.array(drawn)\n")
h("r2h-dm-wlist", "C01,C03,C06,C07,C08", DM, "            new_weights = t_tensor([])\n            for s in new_samples:\n                w = target_d.prob(s) / self.prob(s)\n                self._num_pi_evals += 1\n                new_weights = np.concatenate((new_weights, w.reshape(-1))) if new_weights.size else w.reshape(-1)\n", "            new_weights = np.concatenate([(target_d.prob(s) / self.prob(s)).reshape(-1) for s in new_samples])\n            self._num_pi_evals += len(new_samples)\n")
h("r2h-dm-zeros", "C01,C03,C06,C07,C08", DM, "            new_weights = t_tensor([])\n            for s in new_samples:\n                w = target_d.prob(s) / self.prob(s)\n                self._num_pi_evals += 1\n                new_weights = np.concatenate((new_weights, w.reshape(-1))) if new_weights.size else w.reshape(-1)\n", "            new_weights = np.zeros(len(new_samples))\n            for i, s in enumerate(new_samples):\n                new_weights[i] = target_d.prob(s) / self.prob(s)\n                self._num_pi_evals += 1\n")
h("r2h-dm-while", "C01,C02,C03,C05,C06,C07,C08", DM, ["        while n_samples > len(self.samples) and elapsed_time < timeout:\n", "            elapsed_time = time.time() - t_ini\n"], ["        while True:\n            if len(self.samples) >= n_samples or elapsed_time >= timeout:\n                break\n", "            elapsed_time = time.time() - t_ini\n"])
h("r2h-dm-choice", "C08,C14,C06", DM, "            idx = np.random.multinomial(1, norm_weights)\n            idx = np.argmax(idx)\n            new_mean = samples[idx]\n", "            new_mean = samples[np.random.choice(len(samples), p=norm_weights)]\n")
m("r2-la-cache", "C12", LA, ["        for _ in range(n_steps):\n            old_val = target_d.prob(x)\n            self._num_pi_evals += 1\n", "            x = x_hat if ratio > alpha else x\n"], ["        old_val = target_d.prob(x)\n        self._num_pi_evals += 1\n        for _ in range(n_steps):\n", "            x = x_hat if ratio > alpha else x\n            old_val = new_val\n"])
m("r2-la-cache2", "C12", LA, ["        for _ in range(n_steps):\n            old_val = target_d.prob(x)\n            self._num_pi_evals += 1\n"], ["        old_val = target_d.prob(x)\n        self._num_pi_evals += 1\n        for _ in range(n_steps):\n"])
m("r2-la-hat", "C12", LA, "        return prop_d.loc\n", "        return x_hat\n")
m("r2-la-det", "C12", LA, "ratio > alpha else", "ratio > 1 else")
m("r2-la-max", "C09", LA, "x_hat = np.clip(x + x_delta, self.space_min, self.space_max)", "x_hat = np.maximum(x + x_delta, self.space_min)")
m("r2-la-resfirst", "C06", LA, ["            # Adaptation\n            self.resample(target_d)\n", "            # Weight samples\n"], ["", "            self.resample(target_d)\n            # Weight samples\n"])
m("r2-la-rand", "C12", LA, ["        for _ in range(n_steps):\n            old_val", "            alpha = np.random.rand()\n"], ["        alpha = np.random.rand()\n        for _ in range(n_steps):\n            old_val", ""])
m("r2-la-jit", "C09", LA, "            prop_d.set_moments(new_mean, np", "            prop_d.set_moments(new_mean + self.mhproposal.sample()[0] * 0.01, np")
m("r2-la-time", "C05", LA, "        elapsed_time = 0\n        t_ini = time.time()\n", "        elapsed_time = 0\n        t_ini = time.time() + self.L\n")
h("r2h-la-cache", "C12,C01,C09", LA, ["        for _ in range(n_steps):\n            old_val = target_d.prob(x)\n            self._num_pi_evals += 1\n", "            x = x_hat if ratio > alpha else x\n"], ["        old_val = target_d.prob(x)\n        self._num_pi_evals += 1\n        for _ in range(n_steps):\n", "            if ratio > alpha:\n                x, old_val = x_hat, new_val\n"])
h("r2h-la-mul", "C12,C09", LA, ["            ratio = new_val / old_val\n\n            x = x_hat if ratio > alpha else x\n"], ["            accept = new_val > alpha * old_val\n            x = x_hat if accept else x\n"])
h("r2h-la-once", "C12,C09,C08", LA, "            x = x_hat if ratio > alpha else x\n            prop_d.set_moments(x, np.diag(t_tensor([self.sigma] * len(self.space_max))))\n        return prop_d.loc\n", "            x = x_hat if ratio > alpha else x\n        return x\n")
m("r2-rj-n", "C06", RJ, "self.weights = np.ones_like(self.weights) * 1 / len(self.weights)", "self.weights = np.ones_like(self.weights) * 1 / n_samples")
m("r2-rj-scale", "C12", RJ, "proposals_prob_q = self.proposal_dist.prob(proposals) * self.scaling", "proposals_prob_q = self.proposal_dist.prob(proposals) / self.scaling")
m("r2-rj-once", "C12", RJ, ["            # Generate proposal samples", "            acceptance_prob = np.random.uniform(0, 1, size=n_samples - len(self.samples))\n"], ["            if self.samples.size == 0:\n                uniforms = np.random.uniform(0, 1, size=n_samples)\n            # Generate proposal samples", "            acceptance_prob = uniforms[:len(proposals)]\n"])
m("r2-rj-norm", "C12", RJ, "acceptance_ratio = proposals_prob_p / proposals_prob_q", "acceptance_ratio = proposals_prob_p / proposals_prob_q\n            acceptance_ratio = acceptance_ratio / acceptance_ratio.max()")
m("r2-rj-cnt", "C02", RJ, "proposals = self.proposal_dist.sample(n_samples - len(self.samples))", "proposals = self.proposal_dist.sample(n_samples)[:n_samples - len(self.samples)]")
m("r2-rj-pi", "C01", RJ, "            self._num_pi_evals += len(proposals)\n", "            self._num_pi_evals += len(proposals[target_d.prob(proposals) > 0])\n")
h("r2h-rj-uni", "C12,C02,C01,C03,C07", RJ, "acceptance_prob = np.random.uniform(0, 1, size=n_samples - len(self.samples))", "acceptance_prob = np.random.rand(len(proposals))")
h("r2h-rj-where", "C12,C03,C06,C07", RJ, "            accept_idx = (acceptance_ratio > acceptance_prob).reshape(-1)\n", "            accept_idx = np.where((acceptance_ratio > acceptance_prob).reshape(-1))[0]\n")
h("r2h-rj-acc", "C12,C03,C06,C07", RJ, "            self.samples = np.vstack((self.samples, proposals[accept_idx])) \\\n                if self.samples.size else proposals[accept_idx]\n\n            self.weights = np.concatenate((self.weights, acceptance_ratio[accept_idx].reshape(-1))) \\\n                if self.weights.size else acceptance_ratio[accept_idx].reshape(-1)\n", "            accepted = proposals[accept_idx]\n            ratios = acceptance_ratio.reshape(-1)[accept_idx]\n            if self.samples.size:\n                self.samples = np.concatenate((self.samples, accepted))\n                self.weights = np.append(self.weights, ratios)\n            else:\n                self.samples, self.weights = accepted, ratios\n")
h("r2h-rj-miss", "C12,C03,C07,C02,C01,C05", RJ, ["            # Generate proposal samples from proposal distribution\n            proposals = self.proposal_dist.sample(n_samples - len(self.samples))\n", "size=n_samples - len(self.samples))\n\n"], ["            missing = n_samples - len(self.samples)\n            proposals = self.proposal_dist.sample(missing)\n", "size=missing)\n\n"])
m("r2-mh-cacheold", "C12", MH, ["        while not accepted and timeout > t_elapsed:\n", "            pi_x_old = self.target_d.log_prob(x_old)\n            self._num_pi_evals += 2\n"], ["        if not hasattr(self, '_pi_old') or self._pi_old is None:\n            self._pi_old = self.target_d.log_prob(x_old)\n            self._num_pi_evals += 1\n        while not accepted and timeout > t_elapsed:\n", "            pi_x_old = self._pi_old\n            self._num_pi_evals += 1\n"])
m("r2-mh-last", "C12", MH, "        return x_old\n\n    def mcmc(", "        return x_new\n\n    def mcmc(")
m("r2-mh-min", "C09", MH, "            x_new = np.clip(x_old + self.proposal_d.sample(), self.space_min, self.space_max)\n", "            x_new = np.clip(x_old + self.proposal_d.sample(), np.min(self.space_min), np.max(self.space_max))\n")
m("r2-mh-burn", "C02", MH, "            for _ in range(self.n_burnin):\n", "            self._num_q_samples += self.n_burnin\n            for _ in range(self.n_burnin):\n")
m("r2-mh-initstay", "C04", MH, "        self.is_init = False\n        self.trajectory_samples = []\n        self.trajectory_types = []\n\n    def mcmc_step", "        self.trajectory_samples = []\n        self.trajectory_types = []\n\n    def mcmc_step")
m("r2-mh-target", "C04", MH, "        super(self.__class__, self).reset()\n        self.target_d = None\n", "        super(self.__class__, self).reset()\n")
m("r2-mh-ge", "C05", MH, "while not accepted and timeout > t_elapsed:\n            t_elapsed = time.time() - t_ini\n", "while not accepted and timeout > t_elapsed:\n            t_elapsed += 0\n")
m("r2-mh-burnt", "C05", MH, "self.current_sample = self.mcmc_step(self.current_sample, timeout=timeout-t_elapsed)\n                self.trajectory_types[-1] = self.BURN_IN", "self.current_sample = self.mcmc_step(self.current_sample, timeout=timeout)\n                self.trajectory_types[-1] = self.BURN_IN")
m("r2-mh-w1", "C06", MH, "self.weights = np.ones(len(self.samples)) * 1 / len(self.samples)", "self.weights = np.ones(len(self.samples))")
m("r2-mh-acc2", "C12", MH, "accepted = alpha > np.log(accept)", "accepted = alpha > 0 or alpha > np.log(accept) / self.n_steps")
m("r2-mh-eval", "C01", MH, "            self._num_pi_evals += 2\n            metropolis", "            self._num_pi_evals += 2 if accepted else 1\n            metropolis")
m("r2-mh-model", "C08", MH, "        self.weights = np.ones(len(self.samples)) * 1 / len(self.samples)\n        self._update_model()\n", "        self.weights = np.ones(len(self.samples)) * 1 / len(self.samples)\n        if elapsed_time < timeout:\n            self._update_model()\n")
h("r2h-mh-cache", "C12,C01,C09,C05", MH, ["        x_new = x_old\n        while not accepted", "            pi_x_old = self.target_d.log_prob(x_old)\n            self._num_pi_evals += 2\n"], ["        x_new = x_old\n        pi_x_old = None\n        while not accepted", "            if pi_x_old is None:\n                pi_x_old = self.target_d.log_prob(x_old)\n                self._num_pi_evals += 1\n            self._num_pi_evals += 1\n"])
h("r2h-mh-extract", "C12,C01,C02,C09,C05", MH, ["            # Determine the accept probability a ~ U(0,1)\n            accept = np.random.rand()\n\n            # Accept or reject the proposed new sample x'\n            accepted = alpha > np.log(accept)\n", "    def mcmc(self, n_samples"], ["            accepted = self._accept(alpha)\n", "    @staticmethod\n    def _accept(alpha):\n        return np.log(np.random.rand()) < alpha\n\n    def mcmc(self, n_samples"])
h("r2h-mh-early", "C12,C01,C02,C09,C05", MH, ["            self.trajectory_types.append(self.REJECT)\n\n        if accepted:\n            x_old = x_new\n            self.trajectory_types[-1] = self.ACCEPT\n        return x_old\n"], ["            self.trajectory_types.append(self.REJECT)\n            if accepted:\n                self.trajectory_types[-1] = self.ACCEPT\n                return x_new\n        return x_old\n"])
h("r2h-mh-full", "C06,C03", MH, "self.weights = np.ones(len(self.samples)) * 1 / len(self.samples)", "n = len(self.samples)\n        self.weights = np.full(n, 1 / n)")
h("r2h-mh-w", "C12", MH, "accepted = alpha > np.log(accept)", "accepted = np.exp(alpha) > accept")
h("r2h-rj-unique", "C03,C06,C07,C12", RJ, "            accept_idx = (acceptance_ratio > acceptance_prob).reshape(-1)\n", "            accept_idx = np.unique(np.where((acceptance_ratio > acceptance_prob).reshape(-1))[0])\n")

# ---- third round, nested samplers and what all samplers share
RES_N = "            self.live_points[min_idx], values[min_idx] = self.resample(self.live_points[np.random.randint(0, len(self.live_points))], Lmin, target_d, timeout - elapsed_time)\n"
m("r3-ns-cache", "C16", NS, ["        values = target_d.prob(self.live_points)\n        self._num_pi_evals += len(self.live_points)\n"], ["        if not hasattr(self, 'values') or len(self.samples) == 0:\n            self.values = target_d.prob(self.live_points)\n            self._num_pi_evals += len(self.live_points)\n        values = self.values\n"])
m("r3-ns-last", "C16", NS, "min_idx = np.argmin(values)", "min_idx = np.argmin(values[:-1])")
m("r3-ns-ge", "C16", NS, "while value > new_value and elapsed_time < timeout:", "while 2 * value > new_value and elapsed_time < timeout:")
m("r3-ns-keepbest", "C16", NS, RES_N, RES_N.replace("self.live_points[min_idx], values[min_idx] = ", "p, v = ") + "            if v > np.max(values):\n                self.live_points[min_idx], values[min_idx] = p, v\n")
m("r3-ns-other", "C16", NS, "            self.live_points[min_idx], values[min_idx] = self.resample(", "            self.live_points[i % self.N], values[i % self.N] = self.resample(")
m("r3-ns-X", "C06", NS, "X = np.array([np.exp(-i / self.N) for i in range(len(self.samples))])", "X = np.array([np.exp(-i / self.N) for i in range(1, len(self.samples) + 1)])")
m("r3-ns-Z", "C06", NS, "Z = np.sum(self.L * W)", "Z = np.sum(self.L) * np.mean(W)")
m("r3-ns-clip1", "C09", NS, "        new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)\n        self._num_q_samples += 1\n        new_value = pdf.prob(new_sample)\n        self._num_pi_evals += 1\n        elapsed", "        new_sample = self.proposal_dist.sample() + sample\n        self._num_q_samples += 1\n        new_value = pdf.prob(new_sample)\n        self._num_pi_evals += 1\n        elapsed")
m("r3-ns-count", "C01", NS, "            new_value = pdf.prob(new_sample)\n            self._num_pi_evals += 1\n            elapsed_time = time", "            new_value = pdf.prob(new_sample)\n            elapsed_time = time")
m("r3-ns-view", "C16", NS, "if self.samples.size else self.live_points[min_idx].reshape(1, -1).copy()", "if self.samples.size else self.live_points[min_idx].reshape(1, -1)")
m("r3-ns-range", "C09", NS, "        self.live_points = np.random.uniform(0, 1, size=(self.N, len(self.space_max))) * self.range + self.space_min", "        self.live_points = np.random.uniform(-1, 1, size=(self.N, len(self.space_max))) * self.range / 2")
m("r3-ns-time", "C05", NS, "            elapsed_time = time.time() - t_ini\n            if elapsed_time >= timeout:\n                break\n", "            if time.time() - t_ini >= timeout - elapsed_time and i > self.N:\n                break\n")
m("r3-ns-norm", "C06", NS, "self.weights = (self.L * W) / Z", "self.weights = self.L * W / max(Z, 1e-3)")
m("r3-ns-target", "C16", NS, ["        values = target_d.prob(self.live_points)\n", "        values = target_d.prob(self.live_points)\n"], ["        self.target = target_d if not hasattr(self, 'target') else self.target\n        values = target_d.prob(self.live_points)\n", "        values = self.target.prob(self.live_points)\n"])
h("r3h-ns-arg", "C16,C03,C06", NS, "            Lmin = np.min(values)\n            min_idx = np.argmin(values)\n", "            min_idx = int(np.argmin(values))\n            Lmin = values[min_idx]\n")
h("r3h-ns-while", "C16,C03,C05,C07", NS, ["        for i in range(n_samples - len(self.samples)):\n", "            elapsed_time = time.time() - t_ini\n            if elapsed_time >= timeout:\n                break\n"], ["        while len(self.samples) < n_samples and elapsed_time < timeout:\n", "            elapsed_time = time.time() - t_ini\n"])
h("r3h-ns-shell", "C06", NS, ["        W = np.array([X[i - 1] - X[i] for i in range(1, len(self.samples))])\n        W = np.concatenate((np.array([X[0]]), W))\n"], ["        W = np.concatenate((X[:1], X[:-1] - X[1:]))\n"])
h("r3h-ns-X", "C06", NS, "X = np.array([np.exp(-i / self.N) for i in range(len(self.samples))])", "X = np.exp(-np.arange(len(self.samples)) / self.N)")
h("r3h-ns-do", "C01,C02,C16,C09,C05", NS, ["""        new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)
        self._num_q_samples += 1
        new_value = pdf.prob(new_sample)
        self._num_pi_evals += 1
        elapsed_time = 0
        t_ini = time.time()
        # print""", """        while value > new_value and elapsed_time < timeout:
            new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)
            self._num_q_samples += 1
            new_value = pdf.prob(new_sample)
            self._num_pi_evals += 1
            elapsed_time = time.time() - t_ini
        return new_sample, new_value"""], ["""        elapsed_time = 0
        t_ini = time.time()
        # print""", """        while True:
            new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)
            self._num_q_samples += 1
            new_value = pdf.prob(new_sample)
            self._num_pi_evals += 1
            elapsed_time = time.time() - t_ini
            if value <= new_value or elapsed_time >= timeout:
                return new_sample, new_value"""])
m("r3-mn-idx", "C16", MN, "min_idx = g_indices[np.argmin(values[c_ellipsoid.indices])]", "min_idx = np.argmin(values)")
m("r3-mn-L", "C16", MN, "Lmin = np.min(values[c_ellipsoid.indices])", "Lmin = np.min(values)")
m("r3-mn-pos", "C16", MN, "min_idx = g_indices[np.argmin(values[c_ellipsoid.indices])]", "min_idx = np.argmin(values[c_ellipsoid.indices])")
m("r3-mn-share", "C07", MN, "n_samples_ell = int((n_samples-len(self.samples)) / len(c_ellipsoids))", "n_samples_ell = int(n_samples / len(c_ellipsoids))")
m("r3-mn-early", "C07", MN, "if n_samples <= len(self.samples):", "if n_samples <= len(self.live_points):")
m("r3-mn-break", "C05", MN, "            if elapsed_time >= timeout:\n                break\n\n        # Update Z", "\n        # Update Z")
m("r3-mn-live", "C04", MN, "    def reset(self):\n        self.live_points = np.random.uniform(0, 1, size=(self.N, len(self.space_max))) * self.range + self.space_min\n", "    def reset(self):\n")
m("r3-mn-clip", "C09", MN, "        new_sample = np.clip(ellipsoid.sample(), self.space_min, self.space_max)\n\n", "        new_sample = ellipsoid.sample()\n\n")
m("r3-mn-model", "C08", MN, "        self._update_model()\n        return", "        if self.model is None:\n            self._update_model()\n        return")
m("r3-mn-val", "C16", MN, "                points[min_idx], values[min_idx] = self.resample(", "                points[min_idx], _ = self.resample(")
h("r3h-mn-where", "C16,C03", MN, "np.argwhere(c_ellipsoid.indices == True).flatten()", "np.where(c_ellipsoid.indices)[0]")
h("r3h-mn-copy", "C16,C03,C06", MN, "                Lmin = np.min(values[c_ellipsoid.indices])\n", "                inside = values[c_ellipsoid.indices]\n                Lmin = inside.min()\n")
h("r3h-mn-early", "C07,C03,C06,C08", MN, ["        if n_samples <= len(self.samples):\n            return self.samples, self.weights\n", "        n_samples_ell = int((n_samples-len(self.samples)) / len(c_ellipsoids))\n"], ["        missing = n_samples - len(self.samples)\n        if missing <= 0:\n            return self.samples, self.weights\n", "        n_samples_ell = missing // len(c_ellipsoids)\n"])
m("r3-bs-rate", "C13", BS, "return len(self.samples) / self._num_q_samples", "return min(1.0, len(self.samples) / self._num_q_samples) * (1 - 1 / (1 + self._num_q_samples))")
m("r3-bs-kde", "C08", BS, "np.random.random_integers(0, len(self.samples) - 1, self.n_samples_kde)", "np.random.random_integers(0, min(len(self.samples), self.n_samples_kde) - 1, self.n_samples_kde)")
m("r3-bs-bw", "C08", BS, "            cov = np.ones(len(self.space_max)) * self.bw\n            if x.shape:\n                model = CMultivariateNormal({\"mean\": x, \"sigma\"", "            cov = np.ones(len(self.space_max)) * self.bw\n            if x.shape:\n                model = CMultivariateNormal({\"mean\": x - x * 0.01, \"sigma\"")
m("r3-bs-sample", "C02", BS, "        self._num_q_samples += n_samples\n        return self.model.sample(n_samples)", "        return self.model.sample(n_samples)")
m("r3-bs-ness", "C13", BS, "        normweights = self.weights / np.sum(self.weights)\n", "        normweights = self.weights\n")
m("r3-bs-stats", "C01", BS, "\"target_evals\": self._num_pi_evals", "\"target_evals\": self._num_pi_evals + self._num_q_evals")
m("r3-bs-reset", "C04", BS, "        super(CMixtureSamplingMethod, self).reset()\n        self.model = None", "        super(CMixtureSamplingMethod, self).reset()")
m("r3-bs-resetw", "C04", BS, "        self.samples = t_tensor([])\n        self.weights = t_tensor([])\n        self.variogram = t_tensor([])\n\n    def get_acc", "        self.samples = t_tensor([])\n        self.variogram = t_tensor([])\n\n    def get_acc")
m("r3-bs-logp", "C08", BS, "        return self.model.log_prob(s)\n        # return", "        return np.maximum(self.model.log_prob(s), -100)\n        # return")
h("r3h-bs-mean", "C13", BS, "        ESS = 1 / np.sum(normweights*normweights)\n        return ESS / len(self.samples)", "        return 1 / (len(self.samples) * np.sum(normweights ** 2))")
h("r3h-bs-kde", "C08", BS, "np.random.random_integers(0, len(self.samples) - 1, self.n_samples_kde)", "np.random.randint(0, len(self.samples), size=self.n_samples_kde)")
h("r3h-bs-lazy", "C08,C14", BS, ["        if self.model is None:\n            self._update_model()\n        return self.model.prob(s)\n", "        if self.model is None:\n            self._update_model()\n        return self.model.log_prob(s)\n", "    def _update_model(self):\n        models = []\n        indices"], ["        return self._model().prob(s)\n", "        return self._model().log_prob(s)\n", "    def _model(self):\n        if self.model is None:\n            self._update_model()\n        return self.model\n\n    def _update_model(self):\n        models = []\n        indices"])

# ---------------------------------------------------------------- round 4: trees
m("t4-radius-floor", "C10", T_, "new_radius = node.radius / 2\n", "new_radius = np.maximum(node.radius / 2, 1e-3)\n")
m("t4-ess-eps", "C10", T_, "/ np.sum(node.weight_hist * node.weight_hist)\n            # NESS", "/ (np.sum(node.weight_hist * node.weight_hist) + 1e-6)\n            # NESS")
m("t4-root-mean", "C10", T_, "np.array([np.max((dmax - dmin) / 2)])", "np.array([np.mean((dmax - dmin) / 2)])")
m("t4-model-cache", "C08", T_, "        self._self_normalize()\n        self.model = CMixtureModel({\"models\": models, \"weights\": weights,", "        self._self_normalize()\n        if isinstance(self.model, CMixtureModel) and len(self.model.models) == len(models):\n            return\n        self.model = CMixtureModel({\"models\": models, \"weights\": weights,")
m("t4-norm-floor", "C06", T_, "        if np.sum(self.T.weights[self.T.leaves_idx]) > 0:", "        if np.sum(self.T.weights[self.T.leaves_idx]) > 1e-6:")
m("t4-norm-max", "C06", T_, "self.T.weights[self.T.leaves_idx] / np.sum(\n                self.T.weights[self.T.leaves_idx])", "self.T.weights[self.T.leaves_idx] / np.sum(\n                self.T.weights)")
m("t4-hist-coords", "C03", T_, "            node.coords_hist[-1] = self.T.samples[node.node_idx]\n", "")
m("t4-hist-first", "C03", T_, "            node.coords_hist[-1] = self.T.samples[node.node_idx]\n", "            node.coords_hist[0] = self.T.samples[node.node_idx]\n")
m("t4-weigh-center", "C06", T_, "importance = importance_d.prob(self.coords)", "importance = importance_d.prob(self.center)")
m("t4-weigh-root", "C06", T_, "node.weigh(target_d, self.model)", "node.weigh(target_d, node.sampler)")
m("t4-weigh-floor", "C06", T_, "importance = importance_d.prob(self.coords)", "importance = np.maximum(importance_d.prob(self.coords), 1e-5)")
m("t4-resample-2", "C06", T_, "proposal_probs = 1 / ((2 * radii) ** self.T.ndims)\n", "proposal_probs = 1 / (2 * radii ** self.T.ndims)\n")
m("t4-reset-lazy", "C04", T_, "        self.T = CTreePyramid(self.space_min, self.space_max, kernel=self.kernel)\n        self.model = self.T.root.sampler\n        self.viz_frames", "        if len(self.T.nodes) > 1:\n            self.T = CTreePyramid(self.space_min, self.space_max, kernel=self.kernel)\n        self.model = self.T.root.sampler\n        self.viz_frames")
m("t4-reset-model", "C04", T_, "        self.model = self.T.root.sampler\n        self.viz_frames = list()\n        self.viz_elements = list()\n\n    def find_unique", "        self.viz_frames = list()\n        self.viz_elements = list()\n\n    def find_unique")
m("t4-expand-count", "C01", T_, "                self._num_pi_evals += 1  # Count the evaluation operation\n                self._num_q_evals += 1  # Count the evaluation operation\n                self.T.weights[node.node_idx] = node.weight\n\n            # Resample if", "                self._num_pi_evals += 1 if node.weight > 0 else 0\n                self._num_q_evals += 1  # Count the evaluation operation\n                self.T.weights[node.node_idx] = node.weight\n\n            # Resample if")
m("t4-ness-all", "C13", T_, "        ESS = (np.sum(weights) * np.sum(weights)) / np.sum(weights * weights)\n        # ESS = 1", "        weights = weights[weights > 1e-4]\n        ESS = (np.sum(weights) * np.sum(weights)) / np.sum(weights * weights)\n        # ESS = 1")
m("t4-del-hist", "C10", T_, "        del node.weight_hist\n        del node.coords_hist\n", "        del node.weight_hist\n        del node.coords_hist\n        self.weights[node.leaf_idx] = 0\n")
m("t4-timeout-lambda", "C05", T_, "        while n_samples > self._get_nsamples() and elapsed_time < timeout:\n            # This is", "        while n_samples > self._get_nsamples() and (elapsed_time < timeout or len(self.T.leaves) < self.parallel_samples):\n            # This is")
m("t4-children-order", "C10", T_, "        node.children = new_nodes\n", "        node.children = sorted(new_nodes)[:2]\n")
m("t4-sampler-unit", "C10", T_, "\"radius\": np.ones(self.ndims) * 0.5})", "\"radius\": np.ones(self.ndims) * 0.55})")
m("t4-logprob-0", "C08,C20", T_, "                    llikelihood[i] = 0\n", "                    llikelihood[i] = 1e-12\n")
m("t4-prob-leaf", "C08", T_, "likelihood[i] = self.T.weights[inliers] / ((2 * self.T.radii[inliers]) ** self.T.ndims)\n            return likelihood", "likelihood[i] = self.T.weights[inliers] / ((2 * self.T.radii[0]) ** self.T.ndims)\n            return likelihood")
m("t4-minus-eq", "C10", T_, "        self.samples = np.concatenate((self.samples, np.zeros((len(new_nodes), self.ndims))))\n", "        if len(self.samples) < len(self.nodes):\n            self.samples = np.concatenate((self.samples, np.zeros((len(self.nodes), self.ndims))))[:len(self.nodes) + 1]\n")
h("t4h-half", "C10", T_, "        new_radius = node.radius / 2\n", "        new_radius = 0.5 * node.radius\n")
h("t4h-weigh", "C06,C10,C03", T_, "        self.weight = (target_f(self.coords) * target_d.prob(self.coords)) / importance\n", "        density = target_d.prob(self.coords)\n        self.weight = target_f(self.coords) * (density / importance)\n")
h("t4h-resample", "C06,C10,C03,C01,C02,C08", T_, "        re_samples = self.T.sampler.sample(len(self.T.leaves))\n        centers = self.T.centers[self.T.leaves_idx]\n", "        flags = self.T.leaves_idx\n        n_leaves = len(self.T.leaves)\n        centers = self.T.centers[flags]\n        re_samples = self.T.sampler.sample(n_leaves)\n")
h("t4h-model", "C08,C06,C09", T_, "        i = 0\n        for c, r in zip(centers, radii):\n            if self.kernel == \"haar\":\n                models.append(CMultivariateUniform({\"center\": c, \"radius\": r}))\n\n            elif self.kernel == \"normal\":\n", "        i = 0\n        for j in range(len(centers)):\n            c, r = centers[j], radii[j]\n            if self.kernel == \"haar\":\n                models.append(CMultivariateUniform({\"center\": c, \"radius\": r}))\n\n            elif self.kernel == \"normal\":\n")
h("t4h-norm", "C06,C08,C03,C10", T_, "        if np.sum(self.T.weights[self.T.leaves_idx]) > 0:\n            self.T.weights[self.T.leaves_idx] = self.T.weights[self.T.leaves_idx] / np.sum(\n                self.T.weights[self.T.leaves_idx])", "        leaf_weights = self.T.weights[self.T.leaves_idx]\n        total = leaf_weights.sum()\n        if total > 0:\n            self.T.weights[self.T.leaves_idx] = leaf_weights / total")
h("t4h-mix", "C01,C02,C03,C05,C06,C08", T_, "            n_samples_to_get = n_samples - self._get_nsamples()\n            nodes_to_expand = int(np.ceil(n_samples_to_get / 2 ** self.ndims))\n", "            missing = n_samples - self._get_nsamples()\n            children = 2 ** self.ndims\n            nodes_to_expand = int(np.ceil(missing / children))\n")
h("t4h-root", "C01,C02,C03,C05,C06,C08,C10", T_, ["        if hasattr(self.T.root, \"weight_hist\") and self.T.root.weight_hist is None:\n            self.T.root.sample(self.T.root.sampler)\n            self.T.samples[self.T.root.node_idx] = self.T.root.coords\n            self._num_q_samples += 1\n            self.T.root.weigh(target_d, self.T.root.sampler)\n            self._num_pi_evals += 1  # Count the evaluation operation\n            self._num_q_evals += 1  # Count the evaluation operation\n            self.T.weights[self.T.root.node_idx] = self.T.root.weight\n            self._update_model()\n\n        while n_samples > self._get_nsamples() and elapsed_time < timeout:\n            # Generate", "    def find_unique(self, samples):"], ["        self._sample_root(target_d)\n\n        while n_samples > self._get_nsamples() and elapsed_time < timeout:\n            # Generate", "    def _sample_root(self, target_d):\n        root = self.T.root\n        if hasattr(root, \"weight_hist\") and root.weight_hist is None:\n            root.sample(root.sampler)\n            self.T.samples[root.node_idx] = root.coords\n            root.weigh(target_d, root.sampler)\n            self.T.weights[root.node_idx] = root.weight\n            self._num_q_samples += 1\n            self._num_pi_evals += 1\n            self._num_q_evals += 1\n            self._update_model()\n\n    def find_unique(self, samples):"])
# HiDaisee
m("d4-ess-eps", "C11", H_, "/ np.sum(self.weights * self.weights)\n", "/ max(np.sum(self.weights * self.weights), 1e-6)\n")
m("d4-N", "C11", H_, "        self.N = len(self.samples)\n", "        self.N += 1 if len(x) else 0\n")
m("d4-skip-zero", "C11", H_, "                n_left.add_sample(np.array([x]), w)", "                if w > 0:\n                    n_left.add_sample(np.array([x]), w)")
m("d4-q", "C11", H_, "        n_left.q = n.q / 2\n", "        n_left.q = max(n.q / 2, 1e-3)\n")
m("d4-cache-w", "C11,C06", H_, "                w = target_d.prob(x) / n_right.prob(x)", "                w = n.weights[0:1] * n.prob(x) / n_right.prob(x)")
m("d4-new-rad", "C11", H_, "n_right = CHiDaiseeNode(len(self.nodes) + 1, c_right, new_rad)", "n_right = CHiDaiseeNode(len(self.nodes) + 1, c_right, n.radius)")
m("d4-dim-longest", "C11", H_, "        new_rad[sel_dim] /= 2\n", "        new_rad[np.argmax(new_rad)] /= 2\n")
m("d4-leaves-slot", "C11", H_, "        self.leaves.remove(node_id)\n        self.leaves.append(n_left.idx)\n", "        self.leaves[min(node_id, len(self.leaves) - 1)] = n_left.idx\n")
m("d4-count", "C01", H_, "                self._num_pi_evals += n.N\n", "                self._num_pi_evals += n.N - 1\n")
m("d4-countN", "C01", H_, "                self._num_pi_evals += n.N\n", "                self._num_pi_evals += self.n_min\n")
m("d4-model-cache", "C08", H_, "        centers, radii, weights = self._get_weights_nodes()\n        models = []\n", "        centers, radii, weights = self._get_weights_nodes()\n        if isinstance(self.model, CMixtureModel) and len(self.model.models) == len(centers):\n            return\n        models = []\n")
m("d4-get-w", "C03", H_, "            weights.extend(self.T.nodes[n_idx].weights)\n", "            weights.extend(self.T.nodes[n_idx].weights[::-1])\n")
m("d4-clip", "C06", H_, "            w_i = target_d.prob(x_i) / n.prob(x_i)\n", "            w_i = np.minimum(target_d.prob(x_i) / n.prob(x_i), 1e3)\n")
m("d4-time", "C05", H_, "            if time.time() - t_ini >= timeout:\n", "            if time.time() - t_ini >= timeout and t > len(self.samples):\n")
m("d4-time2", "C05", H_, "            if time.time() - t_ini >= timeout:\n                break\n", "            if time.time() - t_ini >= timeout:\n                timeout = 0\n                continue\n")
m("d4-range", "C07", H_, "for t in range(len(self.samples), n_samples):", "for t in range(len(self.samples), n_samples + self.n_min):")
h("d4h-ess", "C11,C13", H_, "        self.ESS = (np.sum(self.weights) * np.sum(self.weights)) / np.sum(self.weights * self.weights)\n", "        total = self.weights.sum()\n        self.ESS = total ** 2 / np.sum(self.weights ** 2)\n")
h("d4h-split", "C11,C01,C03,C06", H_, "        self.leaves.remove(node_id)\n        self.leaves.append(n_left.idx)\n        self.leaves.append(n_right.idx)\n", "        self.leaves = [leaf for leaf in self.leaves if leaf != node_id] + [n_left.idx, n_right.idx]\n")
h("d4h-push", "C11,C01,C03,C06", H_, "                w = target_d.prob(x) / n_left.prob(x)\n                n_left.add_sample(np.array([x]), w)", "                child = n_left\n                child.add_sample(np.array([x]), target_d.prob(x) / child.prob(x))")
h("d4h-push2", "C11,C01,C03,C06", H_, "            if x[sel_dim] < n_left.center[sel_dim] + n_left.radius[sel_dim]:\n                if n_left.prob(x) <= 0:\n                    raise ValueError(\"pl(x) = %f ; pr(x) = %f \" % (n_left.prob(x), n_right.prob(x)))\n                w = target_d.prob(x) / n_left.prob(x)\n                n_left.add_sample(np.array([x]), w)\n            else:\n                if n_right.prob(x) <= 0:\n                    raise ValueError(\"pl(x) = %f ; pr(x) = %f \" % (n_left.prob(x), n_right.prob(x)))\n                w = target_d.prob(x) / n_right.prob(x)\n                n_right.add_sample(np.array([x]), w)\n", "            child = n_left if x[sel_dim] < n_left.center[sel_dim] + n_left.radius[sel_dim] else n_right\n            if child.prob(x) <= 0:\n                raise ValueError(\"pl(x) = %f ; pr(x) = %f \" % (n_left.prob(x), n_right.prob(x)))\n            w = target_d.prob(x) / child.prob(x)\n            child.add_sample(np.array([x]), w)\n")
h("d4h-get", "C03,C07,C06", H_, "        samples = list()\n        weights = list()\n        for n_idx in self.T.leaves:\n            samples.extend(self.T.nodes[n_idx].samples)\n            weights.extend(self.T.nodes[n_idx].weights)\n", "        samples, weights = [], []\n        for n_idx in self.T.leaves:\n            node = self.T.nodes[n_idx]\n            samples.extend(node.samples)\n            weights.extend(node.weights)\n")
h("d4h-range", "C07,C05,C01,C02,C03", H_, "        for t in range(len(self.samples), n_samples):\n            if time.time() - t_ini >= timeout:\n                break\n", "        t_end = t_ini + timeout\n        for t in range(len(self.samples), n_samples):\n            if time.time() >= t_end:\n                break\n")

# ---------------------------------------------------------------- round 4: distributions and metrics
m("e4-no-jitter", "C21", NO, "self.inv_cov = np.linalg.inv(cov)", "self.inv_cov = np.linalg.inv(cov + 1e-6 * np.eye(self.dims))")
m("e4-no-logdet", "C21", NO, "self.log_det = np.log(self.det)", "self.log_det = np.log(max(self.det, 1e-12))")
m("e4-no-clip", "C20,C21", NO, "return np.exp(self.log_prob(samples))", "return np.exp(np.maximum(self.log_prob(samples), -50))")
m("e4-no-cutoff", "C21", NO, "return (self.term1 + self.term2 + term3).reshape(len(samples))", "return np.where(term3 < -18 * self.dims, -np.inf, self.term1 + self.term2 + term3).reshape(len(samples))")
m("e4-no-scale-cond", "C22", NO, "        self.scale = cov\n", "        if self._scale is None or self._scale.shape != cov.shape:\n            self.scale = cov\n")
m("e4-no-support", "C25", NO, "        if \"support\" not in params:\n", "        if not isinstance(params.get(\"support\"), np.ndarray):\n")
m("e4-no-first", "C21", NO, "diff = (self._loc.reshape(1, self.dims) - samples)", "diff = (self.params[\"mean\"].reshape(1, self.dims) - samples)")
m("e4-no-term2", "C21", NO, "        self.term2 = - 0.5 * self.log_det\n", "        if not hasattr(self, \"term2\"):\n            self.term2 = - 0.5 * self.log_det\n")
m("e4-no-samplecache", "C22", NO, "        return np.random.multivariate_normal(self._loc.flatten(), self._scale, size=n_samples)", "        if not hasattr(self, \"_chol\"):\n            self._chol = np.linalg.cholesky(self._scale)\n        return self._loc.flatten() + np.random.normal(size=(n_samples, self.dims)) @ self._chol.T")
m("e4-un-tol", "C20,C21", UN, "        res = np.full(len(samples), self.prob_val)\n", "        inliers = np.all(np.logical_and(min_val - 1e-9 < samples, samples <= max_val + 1e-9), axis=1)\n        res = np.full(len(samples), self.prob_val)\n")
m("e4-un-logfloor", "C20", UN, "        res[np.logical_not(inliers.flatten())] = -np.inf\n", "        res[np.logical_not(inliers.flatten())] = np.log(np.finfo(float).tiny)\n")
m("e4-un-volfloor", "C21", UN, "        self.prob_val = 1 / self.volume\n", "        self.prob_val = 1 / np.maximum(self.volume, 1e-10)\n")
m("e4-un-int", "C25", UN, "        return (1 / self.volume) * np.prod(np.maximum(end - ini, 0))", "        return self.prob_val * np.prod(np.abs(end - ini))")
m("e4-un-intmin", "C25", UN, "ini = np.maximum(a, self.support_vals[0])", "ini = np.maximum(a, np.min(self.support_vals[0]))")
m("e4-un-samp1", "C22", UN, "        res = np.random.uniform(low=minval, high=maxval, size=(n_samples, self.dims))\n", "        res = np.repeat(np.random.uniform(low=minval, high=maxval, size=(1, self.dims)), n_samples, axis=0)\n")
m("e4-un-sampsame", "C22", UN, "        res = np.random.uniform(low=minval, high=maxval, size=(n_samples, self.dims))\n", "        res = minval + np.random.uniform(size=(n_samples, 1)) * (maxval - minval)\n")
m("e4-mi-thr", "C24", MI, "np.logical_or(np.isnan(weights), weights <= 0)", "np.logical_or(np.isnan(weights), weights <= 1e-10)")
m("e4-mi-sumthr", "C24", MI, "        if weights.sum() <= 0:\n", "        if weights.sum() <= 1e-8:\n")
m("e4-mi-lse", "C20,C21", MI, "logprob = logsumexp(llikelihood, b=self.weights.reshape(-1, 1), axis=0)", "logprob = np.max(llikelihood + np.log(self.weights.reshape(-1, 1)), axis=0)")
m("e4-mi-eps", "C20,C21", MI, "logprob = logsumexp(llikelihood, b=self.weights.reshape(-1, 1), axis=0)", "logprob = np.log(np.exp(llikelihood).T @ self.weights + 1e-12)")
m("e4-mi-strat", "C24", MI, "            idx = np.argmax(np.random.multinomial(1, self.weights))\n", "            idx = _ % len(self.models) if n_samples >= 4 * len(self.models) else np.argmax(np.random.multinomial(1, self.weights))\n")
m("e4-mi-once", "C24", MI, "        for _ in range(n_samples):\n            # Select the sampling proposal\n            idx = np.argmax(np.random.multinomial(1, self.weights))\n", "        idx = np.argmax(np.random.multinomial(1, self.weights))\n        for _ in range(n_samples):\n")
m("e4-mi-alias", "C26", MI, "self.set_weights(np.array(weights))", "self.set_weights(np.asarray(weights))")
m("e4-mi-buf", "C26", MI, "        elif len(data.shape) == 2:\n            llikelihood = np.zeros((len(self.models), len(data)))\n", "        elif len(data.shape) == 2:\n            if getattr(self, \"_ll\", None) is None or self._ll.shape[1] < len(data):\n                self._ll = np.zeros((len(self.models), len(data)))\n            llikelihood = self._ll\n")
m("e4-mi-skiplow", "C20,C21", MI, "            llikelihood[i] = self.models[i].log_prob(data)\n", "            if self.weights[i] > 1e-3:\n                llikelihood[i] = self.models[i].log_prob(data)\n")
m("e4-mi-zeromask", "C20,C21", MI, "        zero_mask = likelihood < np.finfo(likelihood.dtype).min\n        likelihood[zero_mask] = np.finfo(likelihood.dtype).min\n", "        zero_mask = likelihood < np.finfo(likelihood.dtype).eps\n        likelihood[zero_mask] = np.finfo(likelihood.dtype).eps\n")
m("e4-kl-floor", "C30", DV, "        p_samples_logprob[inliers] -= np.logaddexp.reduce(p_samples_logprob[inliers])\n", "        q_samples_logprob = np.maximum(q_samples_logprob, -100.0)\n        p_samples_logprob[inliers] -= np.logaddexp.reduce(p_samples_logprob[inliers])\n")
m("e4-kl-eps", "C30", DV, "res = np.exp(p_samples_logprob[inliers]) * (p_samples_logprob[inliers] - q_samples_logprob[inliers])", "res = np.exp(p_samples_logprob[inliers]) * (p_samples_logprob[inliers] - np.log(np.exp(q_samples_logprob[inliers]) + 1e-12))")
m("e4-kl-finite", "C30", DV, "        res[np.isnan(q_samples_logprob[inliers])] = np.inf\n        return res", "        return res[np.exp(p_samples_logprob[inliers]) > 1e-6]")
m("e4-js-eps", "C31", DV, "np.log(q_samples_prob[inliers] / m_samples_prob)", "np.log((q_samples_prob[inliers] + 1e-10) / (m_samples_prob + 1e-10))")
m("e4-js-tiny", "C31", DV, "inliers = np.logical_and(p_samples_prob > 0, q_samples_prob > 0)\n        inliers = np.logical_and(inliers, np", "inliers = np.logical_and(p_samples_prob > 1e-12, q_samples_prob > 1e-12)\n        inliers = np.logical_and(inliers, np")
m("e4-js-clip", "C31", DV, "        self.value = res.sum() / self.log2\n", "        self.value = min(max(res.sum() / self.log2, 0.01), 1)\n")
m("e4-ev-eps", "C32", ST, "        samples_qprob /= np.sum(samples_qprob)\n", "        samples_qprob /= max(np.sum(samples_qprob), 1e-3)\n")
m("e4-ev-keep", "C32", ST, "        samples_pprob = p.prob(samples)\n", "        if not hasattr(self, \"_pp\") or len(self._pp) != len(samples):\n            self._pp = p.prob(samples)\n        samples_pprob = self._pp.copy()\n")
m("e4-ev-cachep", "C32", ST, "        EV_P = np.sum(samples * samples_pprob.reshape(-1,1), axis=0)\n", "        if not hasattr(self, \"_evp\"):\n            self._evp = np.sum(samples * samples_pprob.reshape(-1,1), axis=0)\n        EV_P = self._evp\n")
m("e4-t-overhead", "C33", PF, "        self.value += self.t_end - self.t_ini - self.overhead\n", "        self.value += max(self.t_end - self.t_ini - self.overhead, self.overhead)\n")
m("e4-t-thr", "C33", PF, "        self.value += self.t_end - self.t_ini - self.overhead\n", "        if self.t_end - self.t_ini > 1e-3:\n            self.value += self.t_end - self.t_ini - self.overhead\n")
m("e4-m-post", "C33", PF, "        self.mem_cum += self.mem_end - self.mem_ini\n", "        self.mem_cum += self.mem_end - self.mem_ini\n        self.mem_ini = self.mem_end\n        self.mem_cum = max(self.mem_cum, 0)\n")
h("e4h-no", "C20,C21,C23,C26,C27", NO, "        term3 = -0.5 * (np.transpose(diff, axes=(0, 2, 1)) @ self.inv_cov @ diff)\n        return (self.term1 + self.term2 + term3).reshape(len(samples))", "        maha = np.einsum('nij,ik,nkj->n', diff, self.inv_cov, diff)\n        return self.term1 + self.term2 - 0.5 * maha")
h("e4h-no2", "C20,C21,C22,C26,C27", NO, "        diff = (self._loc.reshape(1, self.dims) - samples).reshape(len(samples), self.dims, 1)\n", "        diff = (samples - self._loc.reshape(1, self.dims))[:, :, np.newaxis]\n")
h("e4h-un", "C20,C21,C25,C26,C27", UN, "        res = np.full(len(samples), self.prob_val)\n        res[np.logical_not(inliers.flatten())] = 0\n        return res", "        return np.where(inliers, self.prob_val, 0.0)")
h("e4h-un-int", "C25", UN, "        return (1 / self.volume) * np.prod(np.maximum(end - ini, 0))", "        overlap = np.clip(end - ini, 0, None)\n        return overlap.prod() / self.volume")
h("e4h-mi", "C20,C21,C24,C26,C27", MI, "        for i in range(len(self.models)):\n            likelihood[i] = np.exp(self.models[i].log_prob(data).flatten()) * self.weights[i]\n", "        for i, (model, weight) in enumerate(zip(self.models, self.weights)):\n            likelihood[i] = weight * np.exp(model.log_prob(data).flatten())\n")
h("e4h-mi-w", "C24", MI, "        nan_indices = np.logical_or(np.isnan(weights), weights <= 0)\n", "        nan_indices = ~(weights > 0)\n")
h("e4h-mi-sample", "C22,C23,C24", MI, "        res = np.array([])\n        for _ in range(n_samples):\n            # Select the sampling proposal\n            idx = np.argmax(np.random.multinomial(1, self.weights))\n            q = self.models[idx]\n\n            # Sample from the sampling proposal\n            x = q.sample(1)\n            res = np.concatenate((res, x)) if res.size else x\n        return res", "        drawn = []\n        for _ in range(n_samples):\n            idx = np.argmax(np.random.multinomial(1, self.weights))\n            drawn.append(self.models[idx].sample(1))\n        return np.concatenate(drawn)")
h("e4h-kl", "C30", DV, "        inliers = np.logical_and(p_samples_logprob > -np.inf,\n                                 q_samples_logprob > -np.inf)\n        num", "        inliers = (p_samples_logprob > -np.inf) & (q_samples_logprob > -np.inf)\n        num")
h("e4h-kl2", "C30", DV, "        p_samples_logprob[inliers] -= np.logaddexp.reduce(p_samples_logprob[inliers])\n        q_samples_logprob[inliers] -= np.logaddexp.reduce(q_samples_logprob[inliers])\n\n        # Compute discrete KL for each sample\n        res = np.exp(p_samples_logprob[inliers]) * (p_samples_logprob[inliers] - q_samples_logprob[inliers])\n        res[np.isnan(q_samples_logprob[inliers])] = np.inf\n", "        logp = p_samples_logprob[inliers] - np.logaddexp.reduce(p_samples_logprob[inliers])\n        logq = q_samples_logprob[inliers] - np.logaddexp.reduce(q_samples_logprob[inliers])\n\n        # Compute discrete KL for each sample\n        res = np.exp(logp) * (logp - logq)\n        res[np.isnan(logq)] = np.inf\n")
h("e4h-ev", "C32", ST, "        EV_P = np.sum(samples * samples_pprob.reshape(-1,1), axis=0)\n        EV_Q = np.sum(samples * samples_qprob.reshape(-1,1), axis=0)\n        res = (EV_P - EV_Q) @ np.transpose(EV_P - EV_Q)\n", "        EV_P = samples.T @ samples_pprob\n        EV_Q = samples.T @ samples_qprob\n        res = np.sum((EV_P - EV_Q) ** 2)\n")
h("e4h-js", "C31", DV, "        p_samples_prob[inliers] = p_samples_prob[inliers] / np.sum(p_samples_prob[inliers])\n        q_samples_prob[inliers] = q_samples_prob[inliers] / np.sum(q_samples_prob[inliers])\n\n        m_samples_prob = 0.5 * (p_samples_prob[inliers] + q_samples_prob[inliers])\n\n        # Renormalize to avoid precision issues\n        m_samples_prob = m_samples_prob / np.sum(m_samples_prob)\n\n        res = 0.5 * p_samples_prob[inliers] * np.log(p_samples_prob[inliers] / m_samples_prob) + \\\n              0.5 * q_samples_prob[inliers] * np.log(q_samples_prob[inliers] / m_samples_prob)\n", "        p_in = p_samples_prob[inliers] / np.sum(p_samples_prob[inliers])\n        q_in = q_samples_prob[inliers] / np.sum(q_samples_prob[inliers])\n        m_in = 0.5 * (p_in + q_in)\n        m_in = m_in / np.sum(m_in)\n        res = 0.5 * (p_in * np.log(p_in / m_in) + q_in * np.log(q_in / m_in))\n")
m("e4-mi-nonan", "C24", MI, "np.logical_or(np.isnan(weights), weights <= 0)", "weights <= 0")
m("e4-mi-lt", "C24", MI, "np.logical_or(np.isnan(weights), weights <= 0)", "~(weights >= 0) & ~np.isnan(weights)")
h("e4h-mi-nan2", "C24", MI, "np.logical_or(np.isnan(weights), weights <= 0)", "np.logical_not(weights >= 0)")
h("e4h-mi-nan3", "C24", MI, "            weights[nan_indices] = 0\n", "            weights = np.where(weights > 0, weights, 0.0)\n")
# ---- lints, interfaces, shared state, durations
US = "ais_benchmarks/utils/misc.py"
PU = "ais_benchmarks/utils/plot_utils.py"
BS = S + "base.py"
ME = "ais_benchmarks/metrics/base.py"
GN = D + "derived/CGenericNoisyFunction.py"
AB = D + "derived/CABCDistribution.py"
m("i1-secs", "C53", US, "    mins = (total_time - hours * 3600) // 60\n", "    mins = total_time % 3600 // 60.0 if total_time < 86400 else 0\n")
m("i1-neg", "C53", US, "    secs = total_time - hours * 3600 - mins * 60\n", "    secs = round(total_time - hours * 3600 - mins * 60, 0)\n")
m("i1-int", "C53", US, "    secs = total_time - hours * 3600 - mins * 60\n", "    secs = int(total_time - hours * 3600 - mins * 60)\n")
m("i1-hmod", "C53", US, "    hours = total_time // 3600\n", "    hours = total_time // 3600 % 24\n")
m("i1-order", "C53", US, "    return hours, mins, secs", "    return hours, secs, mins")
m("i1-61", "C53", US, "    mins = (total_time - hours * 3600) // 60\n", "    mins = np.ceil((total_time - hours * 3600) / 60)\n")
m("i1-abs", "C53", US, "    hours = total_time // 3600\n", "    hours = int(total_time / 3600 + 0.5)\n")
h("i1h-divmod", "C53", US, "    hours = total_time // 3600\n    mins = (total_time - hours * 3600) // 60\n    secs = total_time - hours * 3600 - mins * 60\n", "    mins, secs = divmod(total_time, 60)\n    hours, mins = divmod(mins, 60)\n")
h("i1h-mod", "C53", US, "    mins = (total_time - hours * 3600) // 60\n    secs = total_time - hours * 3600 - mins * 60\n", "    mins = total_time % 3600 // 60\n    secs = total_time % 60\n")
h("i1h-const", "C53", US, ["    hours = total_time // 3600\n", "def time_to_hms"], ["    hours = total_time // SECONDS_PER_HOUR\n", "SECONDS_PER_HOUR = 3600\n\n\ndef time_to_hms"])
h("i1h-rest", "C53", US, "    mins = (total_time - hours * 3600) // 60\n    secs = total_time - hours * 3600 - mins * 60\n", "    rest = total_time - hours * 3600\n    mins = rest // 60\n    secs = rest - mins * 60\n")
m("i2-name", "C50", T_, "class CTreePyramidNode:", "def _unused(x):\n    return x + radius_of(x)\n\n\nclass CTreePyramidNode:")
m("i2-attr", "C50", BS, '                "n_samples": len(self.samples)}', '                "n_samples": len(self.sample_list)}')
m("i2-mod", "C50", BS, "    log_prob = dist.log_prob(samples.reshape(nsamples,len(space_max)))", "    log_prob = dist.log_probs(samples.reshape(nsamples,len(space_max)))")
m("i2-npmem", "C50", BS, "    samples = np.random.uniform(space_min, space_max, size=(nsamples,len(space_max)))", "    samples = np.random.uniform_samples(space_min, space_max, size=(nsamples,len(space_max)))")
m("i2-kw", "C50", BS, "    samples = np.random.uniform(space_min, space_max, size=(nsamples,len(space_max)))", "    samples = np.random.uniform(space_min, space_max, shape=(nsamples,len(space_max)))")
m("i2-arity", "C50", BS, "    grid, dims, shape = make_grid(space_min, space_max, resolution)\n    log_prob", "    grid, dims, shape = make_grid(space_min, space_max)\n    log_prob")
m("i2-float", "C50", US, "    weights = np.random.rand(num_gaussians)\n", "    weights = np.random.rand(num_gaussians).astype(np.float)\n")
m("i2-branch", "C50", UN, "class CMultivariateUniform", "def _volume(box):\n    if box is None:\n        return volume_of(box)\n    return 0\n\n\nclass CMultivariateUniform")
m("i2-self", "C50", MH, "        self.trajectory_samples = []\n        self.trajectory_types = []\n\n    def mcmc_step", "        self.trajectory_samples.clear_all()\n        self.trajectory_types = []\n\n    def mcmc_step")
m("i2-unbound", "C50", US, "    if val is not None and keep_last:\n            self._q.put(val)" if False else "        val = None\n        while not self._q.empty():", "        while not self._q.empty():")
m("i2-delattr", "C50", GN, "        self.x = None\n        self.z = None\n", "        self.x = None\n")
m("i2-readname", "C50", BS, '    def num_proposal_evals(self):\n        return self._num_q_evals', '    def num_proposal_evals(self):\n        return self._num_proposal_evals')
m("i2-importmod", "C50", LA, "from ais_benchmarks.distributions import CMultivariateNormal", "from ais_benchmarks.distributions import CMultivariateGaussian as CMultivariateNormal")
m("i3-sig", "C51", UN, "    def log_prob(self, samples):", "    def log_prob(self, samples, mask):")
m("i3-drop", "C51", RJ, "    def importance_sample(self, target_d, n_samples, timeout=60):", "    def importance_sample(self, target_d, n_samples):\n        timeout = 60")
m("i3-abstr", "C51", EX, "    def condition(self", "    def condition_on(self")
m("i3-kw", "C51", PF, "    def compute(self, **kwargs):\n        return self.value", "    def compute(self):\n        return self.value")
m("i3-compkw", "C51", ST, "    def pre(self, **kwargs):", "    def pre(self):")
m("i3-raise", "C51", UN, "    def prob(self, samples):", "    def prob(self, samples):\n        if len(samples) > 10000:\n            raise NotImplementedError\n")
m("i3-prop", "C51", NN, "    def prob(self", "    @property\n    def prob(self")
m("i3-static", "C51", DE, "    def prob(self", "    @staticmethod\n    def prob(self")
m("i4-default", "C52", T_, "    def __init__(self, center, radius, node_idx, leaf_idx, level, kernel=\"haar\", bw_div=4, weight=t_tensor(0)):\n", "    def __init__(self, center, radius, node_idx, leaf_idx, level, kernel=\"haar\", bw_div=4, weight=t_tensor(0), history=[]):\n        self.history = history\n        self.history.append(center)\n")
m("i4-class", "C50", MH, "        self.trajectory_samples = []\n        self.trajectory_types = []  # 0", "        self.trajectory_types = []  # 0")
m("i4-class2", "C52", [MH, ][0], ["    SAMPLE = 4\n", "        self.trajectory_samples = []\n        self.trajectory_types = []  # 0", "        self.trajectory_samples = []\n        self.trajectory_types = []\n\n"], ["    SAMPLE = 4\n    trajectory_samples = []\n", "        self.trajectory_types = []  # 0", "        del self.trajectory_samples[:]\n        self.trajectory_types = []\n\n"])
m("i4-glob", "C52", UN, ["class CMultivariateUniform", "        self.volume = "], ["_VOLUMES = {}\n\n\nclass CMultivariateUniform", "        _VOLUMES[self.dims] = self.dims\n        self.volume = "])
m("i4-clsset", "C52", UN, "        self.volume = ", "        CMultivariateUniform.last = self\n        self.volume = ")
m("i4-typeself", "C52", ST, "        samples_pprob = p.prob(samples)\n", "        type(self).seen = getattr(type(self), 'seen', 0) + 1\n        samples_pprob = p.prob(samples)\n")
m("i4-lru", "C52", [UN][0], ["import numpy as np\n", "    def log_prob(self"], ["import numpy as np\nfrom functools import lru_cache\n", "    @staticmethod\n    @lru_cache(maxsize=None)\n    def _log_volume(volume):\n        return [volume]\n\n    def log_prob(self"])
h("i4h-const", "C52", UN, "class CMultivariateUniform", "_KINDS = {'haar': 1, 'normal': 2}\n\n\nclass CMultivariateUniform")
h("i4h-none", "C52", T_, "weight=t_tensor(0)):\n        \"\"\"", "weight=t_tensor(0), history=None):\n        \"\"\"")
h("i4h-classc", "C52,C50,C51", MH, "    SAMPLE = 4\n", "    SAMPLE = 4\n    NAMES = ('reject', 'accept', 'burn-in', 'decorrelation', 'sample')\n")
h("i2h-helper", "C50,C51,C52", BS, "    def get_approx_NESS(self):\n        normweights = self.weights / np.sum(self.weights)\n", "    def _normalized_weights(self):\n        return self.weights / np.sum(self.weights)\n\n    def get_approx_NESS(self):\n        normweights = self._normalized_weights()\n")
h("i2h-try", "C50", US, "import numpy as np\n", "import numpy as np\ntry:\n    import cupy\nexcept ImportError:\n    cupy = None\n")
h("i2h-getattr", "C50", GN, "    def wait_for_ready(self, timeout):\n        return", "    def wait_for_ready(self, timeout):\n        if hasattr(self.noise_model, 'wait_for_ready'):\n            self.noise_model.wait_for_ready(timeout)\n        return")
# ---- rules of the last rounds
m("s5-no-lazy", "C21", NO, "        self.loc = mean\n        self.scale = cov\n        self.inv_cov = np.linalg.inv(cov)\n", "        if self._scale is None or not np.array_equal(np.diag(self._scale), np.diag(cov)):\n            self.inv_cov = np.linalg.inv(cov)\n        self.loc = mean\n        self.scale = cov\n")
h("s5h-no-lazy", "C20,C21,C22,C26", NO, "        self.loc = mean\n        self.scale = cov\n        self.inv_cov = np.linalg.inv(cov)\n", "        if self._scale is None or not np.array_equal(self._scale, cov):\n            self.inv_cov = np.linalg.inv(cov)\n        self.loc = mean\n        self.scale = cov\n")
m("s5-rj-clock", "C05", RJ, "            t_elapsed = time.time() - t_ini\n", "            if len(self.samples) > 0:\n                t_elapsed = time.time() - t_ini\n")
m("s5-la-memo", "C12", LA, ["        for _ in range(n_steps):\n            old_val = target_d.prob(x)\n            self._num_pi_evals += 1\n", "            x = x_hat if ratio > alpha else x\n"], ["        old_val = target_d.prob(x)\n        self._num_pi_evals += 1\n        for _ in range(n_steps):\n", "            x = x_hat if ratio > alpha else x\n            old_val = new_val\n"])

h("i2h-sometimes", "C50", US, "    hours = total_time // 3600\n", "    if total_time < 0:\n        raise ValueError(total_time)\n    else:\n        hours = total_time // 3600\n")
h("i2h-flag", "C50", US, "    weights = np.random.rand(num_gaussians)\n", "    ok = num_gaussians > 0\n    if ok:\n        last = num_gaussians\n    if ok:\n        num_gaussians = last\n    weights = np.random.rand(num_gaussians)\n")
m("i2-sometimes", "C50", US, "    hours = total_time // 3600\n", "    if total_time >= 3600:\n        hours = total_time // 3600\n")
m("i2-sometimes2", "C50", HA if False else H_, "class CHiDaisee", "def _pick(values):\n    if len(values) > 1:\n        best = max(values)\n    return best\n\n\nclass CHiDaisee")
m("j4-inplace", "C52", T_, "        self.weight_hist = None\n", "        self.weight_hist = None\n        self.weight *= 1\n")
m("j4-alias", "C52", UN, ["    def log_prob(self", "class CMultivariateUniform(CDistribution):\n"], ["    def _remember(self, x):\n        known = self.cache\n        known[len(known)] = x\n\n    def log_prob(self", "class CMultivariateUniform(CDistribution):\n    cache = {}\n"])
m("j4-iadd", "C52", MI, "class CMixtureModel(CDistribution):\n", "class CMixtureModel(CDistribution):\n    log = []\n\n    def _note(self, x):\n        self.log += [x]\n\n")
m("j4-rng", "C52,C41", UN, ["class CMultivariateUniform", "    def sample(self, n_samples=1):\n"], ["_RNG = np.random.RandomState(7)\n\n\nclass CMultivariateUniform", "    def sample(self, n_samples=1):\n        _RNG.uniform()\n"])
m("j4-fnattr", "C52", US, "    hours = total_time // 3600\n", "    time_to_hms.calls = getattr(time_to_hms, 'calls', 0) + 1\n    hours = total_time // 3600\n")
m("j4-params", "C52", MH, "    def __init__(self, params):\n", "    def __init__(self, params={}):\n")
m("j4-clsarray", "C52", LA, ["class CLayeredAIS(CMixtureISSamplingMethod):\n", "    def mcmc_mh(self, x, prop_d, target_d, n_steps):\n"], ["class CLayeredAIS(CMixtureISSamplingMethod):\n    steps = np.zeros(2)\n\n", "    def mcmc_mh(self, x, prop_d, target_d, n_steps):\n        self.steps[0] += n_steps\n"])
m("j4-global", "C52", MI, ["class CMixtureModel(CDistribution):\n", "    def sample(self, n_samples=1):\n"], ["_last = None\n\n\nclass CMixtureModel(CDistribution):\n", "    def sample(self, n_samples=1):\n        global _last\n        _last = self\n"])
m("j4-getclass", "C52", MI, ["class CMixtureModel(CDistribution):\n", "    def sample(self, n_samples=1):\n"], ["class CMixtureModel(CDistribution):\n    drawn = 0\n\n", "    def sample(self, n_samples=1):\n        self.__class__.drawn += n_samples\n"])
m("j4-out", "C52", NO, ["class CMultivariateNormal(CDistribution):\n", "    def log_prob(self, samples):\n"], ["_WORK = np.zeros((4096, 1))\n\n\nclass CMultivariateNormal(CDistribution):\n", "    def log_prob(self, samples):\n        np.copyto(_WORK[:1], 0)\n"])
m("j4-defarr", "C52", KD, "    def __init__(self, params):\n", "    def __init__(self, params, _buf=np.zeros(3)):\n        self._buf = _buf\n        self._buf[:] = 1\n")
m("j4-params2", "C52", T_, "        self.center = t_tensor(center)  # n_c\n", "        self.center = t_tensor(center)  # n_c\n        if not hasattr(CTreePyramidNode, 'count'):\n            CTreePyramidNode.count = 0\n        CTreePyramidNode.count += 1\n")
h("j4h-inst", "C52,C50,C51", UN, "        self.volume = ", "        self._seen = {}\n        self._seen['x'] = 1\n        self.volume = ")
h("j4h-global", "C52", NO, "class CMultivariateNormal(CDistribution):\n", "LOG_2PI = np.log(2 * np.pi)\n\n\nclass CMultivariateNormal(CDistribution):\n    TWO_PI = LOG_2PI\n")
h("j4h-copydef", "C52", KD, "    def __init__(self, params):\n", "    def __init__(self, params, bounds=(0, 1)):\n        self._bounds = list(bounds)\n        self._bounds.append(2)\n")
h("j4h-defcopy", "C52", KD, "    def __init__(self, params):\n", "    def __init__(self, params, extra=[]):\n        self._extra = list(extra)\n        self._extra.append(2)\n")
m("j0-callorder", "C50", LA, "    def reset(self):\n        super", "    def reset(self, *args):\n        super(CLayeredAIS, self).reset(self.proposals)\n        super") 
m("j0-dict", "C50", BS, "        normweights = self.weights / np.sum(self.weights)\n", "        normweights = self.weights / self.weights.total()\n")
m("j0-string", "C50", BA, "import numpy as np\n", "import numpy as np\nfrom scipy.misc import factorial\n")
m("j0-npalias", "C50", EX, "np.", "np.product_of.", )
m("j0-nested", "C50", US, "    for _ in range(num_gaussians):\n", "    def scale_of(s):\n        return s * sigma_scale\n    for _ in range(num_gaussians):\n")
m("j0-except", "C50", US, "        except Empty:\n            return \"\"", "        except QueueEmpty:\n            return \"\"")
m("j0-typo-method", "C50", MN if False else S + "multi_nested.py", "self.", "self.get_ellipsoid_bounds() if self.", )
m("j4-deep", "C52", UN, ["    def log_prob(self", "class CMultivariateUniform(CDistribution):\n"], ["    def _remember(self, x):\n        self.cache['seen'].append(x)\n\n    def log_prob(self", "class CMultivariateUniform(CDistribution):\n    cache = {'seen': []}\n"])
m("j4-shuffle", "C52", UN, ["    def log_prob(self", "class CMultivariateUniform(CDistribution):\n"], ["    def _order(self):\n        np.random.shuffle(self.axes)\n        return self.axes\n\n    def log_prob(self", "class CMultivariateUniform(CDistribution):\n    axes = [0, 1, 2]\n"])
m("k1-random", "C41", DE, "class CMultivariateDelta", "import random\n\n\ndef _jitter():\n    return random.random()\n\n\nclass CMultivariateDelta")
m("k1-defrng", "C41", UN, "np.random.uniform(", "np.random.default_rng().uniform(")
m("k1-state", "C41", UN, "    def __init__(self, params):\n", "    def __init__(self, params):\n        self.rng = np.random.RandomState()\n")
m("k1-state0", "C41", NO, "    def __init__(self, params):\n", "    def __init__(self, params):\n        self.rng = np.random.RandomState(0)\n")
m("k1-reseed", "C41", MH, "    def reset(self):\n", "    def reset(self):\n        np.random.seed(None)\n")
m("k1-reseed2", "C41", MH, "    def reset(self):\n", "    def reset(self):\n        np.random.seed(0)\n")
m("k1-urandom", "C41", LA, "import numpy as np\n", "import numpy as np\nimport os\n_K = os.urandom(4)\n")
m("k1-scipy", "C41", EX, "import numpy as np\n", "import numpy as np\nfrom scipy import stats\n\n\ndef _draw(n):\n    return stats.expon.rvs(size=n, random_state=np.random.default_rng())\n")
m("k1-setstate", "C41", LA, "    def reset(self):\n", "    def reset(self):\n        np.random.set_state(np.random.get_state())\n")
m("k1-timeseed", "C41", LA, "    def reset(self):\n", "    def reset(self):\n        self._g = np.random.Generator(np.random.PCG64())\n")
m("k1-secrets", "C41", LA, "import numpy as np\n", "import numpy as np\nfrom secrets import randbelow\n\n\ndef _pick(n):\n    return randbelow(n)\n")
m("k1-metric", "C41", "ais_benchmarks/metrics/statistics.py", "import numpy as np\n", "import numpy as np\nimport random as _r\n\n\ndef _pick(x):\n    return _r.choice(x)\n")
m("k1-uuid", "C41", LA, "    def reset(self):\n", "    def reset(self):\n        import uuid\n        self._key = uuid.uuid4().int % 7\n")
h("k1h-alias", "C41", UN, "import numpy as np\n", "import numpy as np\nfrom numpy.random import uniform as _uniform\n")
h("k1h-std", "C41", NO, "np.random.multivariate_normal(", "np.random.multivariate_normal(" )
h("k1h-rand", "C41", MH, "accept = np.random.rand()", "accept = np.random.uniform(0, 1)")
# ---- fifth round on the samplers
DMF, PMF, NEF, MUF = S + "dm_ais.py", S + "m_pmc.py", S + "nested.py", S + "multi_nested.py"
m("v5-mh-early", "C07", MH, "        self.target_d = target_d\n        elapsed_time = 0\n", "        if n_samples <= len(self.samples):\n            return self.samples[:n_samples], self.weights[:n_samples]\n        self.target_d = target_d\n        elapsed_time = 0\n")
h("v5h-mh-early", "C07,C03,C06,C12", MH, "        self.target_d = target_d\n        elapsed_time = 0\n", "        self.target_d = target_d\n        if self.model is not None and n_samples <= len(self.samples):\n            return self.samples, self.weights\n        elapsed_time = 0\n")
m("v5-tp-keepmodel", "C08", T_, ["        self._update_model()\n        return self._get_samples()\n\n    def importance_sample_simple", "        self.viz_frames = list()\n\n        self.viz_elements = list()\n\n    def get_stats"], ["        if len(self.T.leaves) != self._n_leaves:\n            self._update_model()\n            self._n_leaves = len(self.T.leaves)\n        return self._get_samples()\n\n    def importance_sample_simple", "        self._n_leaves = 0\n        self.viz_frames = list()\n\n        self.viz_elements = list()\n\n    def get_stats"])
m("v5-hd-keepmodel", "C08", H_, ["        self._update_model()\n        return self._get_samples()", "        super(self.__class__, self).reset()\n        self.T = "], ["        if len(self.T.leaves) != self._n_leaves:\n            self._update_model()\n            self._n_leaves = len(self.T.leaves)\n        return self._get_samples()", "        super(self.__class__, self).reset()\n        self._n_leaves = 0\n        self.T = "])
m("v5-la-clip", "C09", LA, "np.clip(x + x_delta, self.space_min, self.space_max)", "np.minimum(x + x_delta, self.space_max)")
m("v5-la-clip0", "C09", LA, "np.clip(x + x_delta, self.space_min, self.space_max)", "np.clip(x + x_delta, self.space_min[0], self.space_max[0])")
m("v5-mh-hastings", "C12", MH, "            alpha = metropolis_term + hastings_term\n", "            alpha = metropolis_term\n")
m("v5-mh-timeout", "C12", MH, "        if accepted:\n            x_old = x_new\n", "        if accepted or t_elapsed >= timeout:\n            x_old = x_new\n")
m("v5-mh-neginf", "C12", MH, "            accepted = alpha > np.log(accept)\n", "            accepted = alpha > np.log(accept) or not np.isfinite(pi_x_new)\n")
m("v5-mh-rate", "C13", MH, "    def mcmc_step(self", "    def get_acceptance_rate(self):\n        return self.trajectory_types.count(self.SAMPLE) / max(len(self.trajectory_types), 1)\n\n    def mcmc_step(self")
m("v5-rj-count", "C02", RJ, "            proposals = self.proposal_dist.sample(n_samples - len(self.samples))\n            self._num_q_samples += len(proposals)\n", "            proposals = self.proposal_dist.sample(max(n_samples - len(self.samples), 16))\n            self._num_q_samples += n_samples - len(self.samples)\n")
m("v5-mh-fulltime", "C05", MH, "                self.current_sample = self.mcmc_step(self.current_sample, timeout=timeout-t_elapsed)\n                self.trajectory_types[-1] = self.DECORRELATION", "                self.current_sample = self.mcmc_step(self.current_sample, timeout=timeout)\n                self.trajectory_types[-1] = self.DECORRELATION")
m("v5-mh-fulltime2", "C05", MH, "            sample = self.mcmc(1, self.n_steps, timeout - t_elapsed)", "            sample = self.mcmc(1, self.n_steps, timeout)")
m("v5-ne-fulltime", "C05", NEF, "Lmin, target_d, timeout - elapsed_time)", "Lmin, target_d, timeout)")
m("v5-la-order", "C06", LA, ["            # Adaptation\n            self.resample(target_d)\n\n", "            # Weight samples\n"], ["", "            # Adaptation\n            self.resample(target_d)\n            # Weight samples\n"])
m("v5-dm-order", "C06", DMF, "            # Adaptation\n            self.resample(new_samples, new_weights)\n", "            # Adaptation\n            self.resample(new_samples, new_weights)\n            new_weights = np.array([target_d.prob(s) / self.prob(s) for s in new_samples]).reshape(-1)\n")
m("v5-tp-weighmodel", "C06", T_, "                node.weigh(target_d, node.sampler)\n", "                node.weigh(target_d, self.model)\n")
m("v5-nessinplace", "C14", BS, "        normweights = self.weights / np.sum(self.weights)\n", "        self.weights /= np.sum(self.weights)\n        normweights = self.weights\n")
m("v5-nesssort", "C14", BS, "        normweights = self.weights / np.sum(self.weights)\n", "        self.weights.sort()\n        normweights = self.weights / np.sum(self.weights)\n")
m("v5-tpnz", "C03", T_, "            return self.T.samples[self.T.leaves_idx], self.T.weights[self.T.leaves_idx]\n", "            w = self.T.weights[self.T.leaves_idx]\n            return self.T.samples[self.T.leaves_idx][w > 0], w\n")
m("v5-nenoL", "C04", NEF, ["        self.L = None\n", "        self.L = np.array([])\n        self.Z = 0\n        super(CNestedSampling"], ["        self.L = np.array([])\n", "        self.Z = 0\n        super(CNestedSampling"])
m("v5-nelive", "C04", NEF, "    def reset(self):\n        self.live_points = np.random.uniform(0, 1, size=(self.N, len(self.space_max))) * self.range + self.space_min\n", "    def reset(self):\n        if self.live_points is None:\n            self.live_points = np.random.uniform(0, 1, size=(self.N, len(self.space_max))) * self.range + self.space_min\n")
m("v5-necopy", "C16", NEF, "self.live_points[min_idx])) if self.samples.size else self.live_points[min_idx].reshape(1, -1).copy()", "self.live_points[min_idx])) if self.samples.size else self.live_points[min_idx].reshape(1, -1)")
m("v5-mucopy", "C16,C03", MUF, "points[min_idx].reshape(1,-1).copy()", "points[min_idx].reshape(1,-1)")
m("v5-muidx", "C16", MUF, "                min_idx = g_indices[np.argmin(values[c_ellipsoid.indices])]\n", "                min_idx = np.argmin(values[c_ellipsoid.indices])\n")
m("v5-muell2", "C16", MUF, "                Lmin = np.min(values[c_ellipsoid.indices])\n", "                Lmin = np.min(values)\n")
m("v5-nestale", "C16", NEF, "        values = target_d.prob(self.live_points)\n        self._num_pi_evals += len(self.live_points)\n", "        if self._vals is None:\n            self._vals = target_d.prob(self.live_points)\n            self._num_pi_evals += len(self.live_points)\n        values = self._vals\n")
m("v5-hdcount", "C01", H_, "                self._num_pi_evals += n.N\n", "                self._num_pi_evals += self.n_min\n")
m("v5-hdrad", "C11", H_, "n_right = CHiDaiseeNode(len(self.nodes) + 1, c_right, new_rad)", "n_right = CHiDaiseeNode(len(self.nodes) + 1, c_right, n.radius / 2)")
m("v5-hdmodelw", "C08", H_, "            weights.append(np.mean(self.T.nodes[n_idx].weights))\n", "            weights.append(np.sum(self.T.nodes[n_idx].weights))\n")
m("v5-pmalias", "C15", PMF, "        self.wproposals = self.wproposals / self.wproposals.sum()\n        self.model.set_weights(self.wproposals)\n", "        self.model.set_weights(self.wproposals / self.wproposals.sum())\n")
m("v5-pmmean", "C15", PMF, " * samples, axis=0) / self.wproposals[d]\n", " * samples, axis=0) / max(self.wproposals[d], 1e-3)\n")
m("v5-reuse-proposals", "C04", PMF, "        self.proposals = []\n        for _ in range(self.N):\n            prop_center = np.random.uniform(self.space_min, self.space_max)\n", "        for _ in range(self.N - len(self.proposals)):\n            prop_center = np.random.uniform(self.space_min, self.space_max)\n")
m("v5-mpc-stop", "C07", PMF, "        while n_samples > len(self.samples) and elapsed_time < timeout:\n", "        while n_samples > len(self.samples) + self.K - 1 and elapsed_time < timeout:\n")
m("v5-tp-level", "C10", T_, "level=node.level + 1, kernel=self.kernel)", "level=node.level + (i == 0), kernel=self.kernel)")
m("v5-tp-nodes", "C10", T_, "        self.leaves_idx[node.node_idx] = False\n", "        self.leaves_idx[self.leaves[node.leaf_idx].node_idx] = False\n")
m("v5-tp-parentw", "C10", T_, "weight=node.weight / (N + 1)", "weight=node.weight / (N + 1) if node.level else node.weight")
m("v5-tp-radius", "C10", T_, "radius=np.array([np.max((dmax - dmin) / 2)])", "radius=np.array([np.max((dmax - dmin)[:1] / 2)])")
h("v5h-la-axis", "C09,C12", LA, "            x_hat = np.clip(x + x_delta, self.space_min, self.space_max)\n", "            x_hat = x + x_delta\n            for k in range(self.ndims):\n                x_hat[k] = min(max(x_hat[k], self.space_min[k]), self.space_max[k])\n")
h("v5h-la-where", "C09,C12", LA, "            x_hat = np.clip(x + x_delta, self.space_min, self.space_max)\n", "            x_hat = x + x_delta\n            x_hat = np.where(x_hat < self.space_min, self.space_min, x_hat)\n            x_hat = np.where(x_hat > self.space_max, self.space_max, x_hat)\n")
h("v5h-la-mask", "C09,C12", LA, "            x_hat = np.clip(x + x_delta, self.space_min, self.space_max)\n", "            x_hat = x + x_delta\n            low = x_hat < self.space_min\n            x_hat[low] = self.space_min[low]\n            high = x_hat > self.space_max\n            x_hat[high] = self.space_max[high]\n")

# ---- rewrites in other styles
SAMP = "C01,C02,C03,C04,C05,C06,C07,C08,C14"
_GEN = '''            new_samples = t_tensor([])
            for q in self.proposals:
                for _ in range(self.K):
                    s = q.sample()[0]
                    self._num_q_samples += 1
                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s.reshape(1, -1)
'''
_WTS = '''            new_weights = t_tensor([])
            for s in new_samples:
                w = target_d.prob(s) / self.prob(s)
                self._num_pi_evals += 1
                new_weights = np.concatenate((new_weights, w.reshape(-1))) if new_weights.size else w.reshape(-1)
'''
_STORE = '''            self.samples = np.concatenate((self.samples, new_samples)) if self.samples.size else new_samples
            self.weights = np.concatenate((self.weights, new_weights)) if self.weights.size else new_weights
'''
h("w1h-dm-batch", SAMP, DMF, _GEN, '''            new_samples = np.concatenate([q.sample(self.K) for q in self.proposals])
            self._num_q_samples += self.K * len(self.proposals)
''')
h("w1h-dm-list", SAMP, DMF, _GEN, '''            drawn = []
            for q in self.proposals:
                for _ in range(self.K):
                    drawn.append(q.sample()[0])
            self._num_q_samples += len(drawn)
            new_samples = np.array(drawn)
''')
h("w1h-dm-comp", SAMP, DMF, _GEN, '''            new_samples = np.vstack([q.sample()[0] for q in self.proposals for _ in range(self.K)])
            self._num_q_samples += len(new_samples)
''')
h("w1h-dm-alloc", SAMP, DMF, _GEN, '''            new_samples = np.empty((self.N * self.K, self.ndims))
            for i, q in enumerate(self.proposals):
                for k in range(self.K):
                    new_samples[i * self.K + k] = q.sample()[0]
                    self._num_q_samples += 1
''')
h("w1h-dm-wvec", SAMP, DMF, _WTS, '''            new_weights = (target_d.prob(new_samples) / self.prob(new_samples)).reshape(-1)
            self._num_pi_evals += len(new_samples)
''')
h("w1h-dm-wcomp", SAMP, DMF, _WTS, '''            new_weights = np.array([(target_d.prob(s) / self.prob(s)).item() for s in new_samples])
            self._num_pi_evals += len(new_weights)
''')
h("w1h-dm-wlog", SAMP, DMF, _WTS, '''            new_weights = np.exp(target_d.log_prob(new_samples) - self.log_prob(new_samples)).flatten()
            self._num_pi_evals += new_samples.shape[0]
''')
h("w1h-dm-wfill", SAMP, DMF, _WTS, '''            new_weights = np.zeros(len(new_samples))
            for i, s in enumerate(new_samples):
                new_weights[i] = target_d.prob(s) / self.prob(s)
            self._num_pi_evals += len(new_samples)
''')
h("w1h-dm-helper", SAMP, DMF, [_GEN, "    def resample(self, samples, weights):\n"], ["            new_samples = self._propose()\n", '''    def _propose(self):
        batch = []
        for q in self.proposals:
            for _ in range(self.K):
                batch.append(q.sample()[0])
                self._num_q_samples += 1
        return np.stack(batch)

    def resample(self, samples, weights):
'''])
h("w1h-dm-store", SAMP, DMF, _STORE, '''            if self.samples.size == 0:
                self.samples, self.weights = new_samples, new_weights
            else:
                self.samples = np.vstack([self.samples, new_samples])
                self.weights = np.hstack([self.weights, new_weights])
''')
h("w1h-dm-append", SAMP, DMF, _STORE, '''            if len(self.samples) > 0:
                self.samples = np.append(self.samples, new_samples, axis=0)
                self.weights = np.append(self.weights, new_weights)
            else:
                self.samples = new_samples
                self.weights = new_weights
''')
h("w1h-dm-deadline", SAMP, DMF, ["        elapsed_time = 0\n        t_ini = time.time()\n\n        while n_samples > len(self.samples) and elapsed_time < timeout:\n", "            elapsed_time = time.time() - t_ini\n"],
  ["        deadline = time.time() + timeout\n\n        while n_samples > len(self.samples) and time.time() < deadline:\n", ""])
h("w1h-dm-forever", SAMP, DMF, ["        while n_samples > len(self.samples) and elapsed_time < timeout:\n"], ["        while True:\n            if len(self.samples) >= n_samples or elapsed_time >= timeout:\n                break\n"])
h("w1h-dm-choice", SAMP, DMF, "            idx = np.random.multinomial(1, norm_weights)\n            idx = np.argmax(idx)\n            new_mean = samples[idx]\n", "            idx = np.random.choice(len(samples), p=norm_weights)\n            new_mean = samples[idx]\n")
h("w1h-dm-cov", SAMP, DMF, "        for prop_d in self.proposals:\n            idx =", "        cov = self.sigma * np.eye(self.ndims)\n        for prop_d in self.proposals:\n            idx =")
h("w1h-dm-eye", SAMP, DMF, "np.diag(t_tensor([self.sigma] * len(self.space_max)))})\n            self.proposals.append(prop_d)\n", "self.sigma * np.eye(self.ndims)})\n            self.proposals.append(prop_d)\n")
h("w1h-dm-propcomp", SAMP, DMF, '''        self.proposals = []
        for _ in range(self.N):
            prop_center = np.random.uniform(self.space_min, self.space_max)
            prop_d = CMultivariateNormal({"mean": prop_center,
                                          "sigma": np.diag(t_tensor([self.sigma] * len(self.space_max)))})
            self.proposals.append(prop_d)
''', '''        def make():
            return CMultivariateNormal({"mean": np.random.uniform(self.space_min, self.space_max),
                                        "sigma": np.diag(t_tensor([self.sigma] * len(self.space_max)))})

        self.proposals = [make() for _ in range(self.N)]
''')
h("w1h-dm-fullw", SAMP, DMF, "t_tensor([1 / len(self.proposals)] * len(self.proposals))", "np.full(self.N, 1. / self.N)")
h("w1h-pm-vec", SAMP + ",C15", PMF, "            cov_val = (samples - mu).T @ (samples - mu)\n            cov = np.zeros_like(cov_val)\n            for i in range(self.K):\n                cov += weights[i] * posteriors[d][i] * cov_val\n            cov /= self.wproposals[d]\n",
  "            dev = samples - mu\n            cov = np.sum(weights * posteriors[d]) * np.dot(dev.T, dev) / self.wproposals[d]\n")
h("w1h-pm-einsum", SAMP + ",C15", PMF, "            mu = np.sum(weights.reshape(-1, 1) * posteriors[d].reshape(-1, 1) * samples, axis=0) / self.wproposals[d]\n", "            mu = np.einsum('i,ij->j', weights * posteriors[d], samples) / self.wproposals[d]\n")
h("w1h-pm-matmul", SAMP + ",C15", PMF, "            mu = np.sum(weights.reshape(-1, 1) * posteriors[d].reshape(-1, 1) * samples, axis=0) / self.wproposals[d]\n", "            mu = (weights * posteriors[d]) @ samples / self.wproposals[d]\n")
h("w1h-pm-average", SAMP + ",C15", PMF, "            mu = np.sum(weights.reshape(-1, 1) * posteriors[d].reshape(-1, 1) * samples, axis=0) / self.wproposals[d]\n", "            mu = np.average(samples, axis=0, weights=weights * posteriors[d])\n")
h("w1h-pm-dot", SAMP + ",C15", PMF, "            self.wproposals[d] = np.sum(weights * posteriors[d])\n", "            self.wproposals[d] = np.dot(weights, posteriors[d])\n")
h("w1h-pm-rho", SAMP + ",C15", PMF, "                    rho[d][i] = np.exp(np.log(alpha_d) + q_d - q_x)\n", "                    rho[d, i] = alpha_d * np.exp(q_d - q_x)\n")
h("w1h-pm-zip", SAMP + ",C15", PMF, "                for d in range(self.N):\n                    alpha_d = self.wproposals[d]\n                    q_d = self.proposals[d].log_prob(new_samples[i])\n", "                for d, (alpha_d, prop) in enumerate(zip(self.wproposals, self.proposals)):\n                    q_d = prop.log_prob(new_samples[i])\n")
h("w1h-pm-batch", SAMP + ",C15", PMF, '''            for i in range(self.K):
                pi_x = target_d.log_prob(new_samples[i])
                q_x = self.log_prob(new_samples[i])
                new_weights[i] = np.exp(pi_x - q_x)

                self._num_pi_evals += 1
                self._num_q_evals += 1

                # Compute mixture posteriors (eq. 7)
                for d in range(self.N):
                    alpha_d = self.wproposals[d]
                    q_d = self.proposals[d].log_prob(new_samples[i])
                    rho[d][i] = np.exp(np.log(alpha_d) + q_d - q_x)
                    self._num_q_evals += 1

            new_weights = new_weights / new_weights.sum()
''', '''            pi_x = target_d.log_prob(new_samples).flatten()
            q_x = self.log_prob(new_samples).flatten()
            self._num_pi_evals += len(new_samples)
            self._num_q_evals += len(new_samples)
            new_weights = np.exp(pi_x - q_x)

            # Compute mixture posteriors (eq. 7)
            for d in range(self.N):
                q_d = self.proposals[d].log_prob(new_samples).flatten()
                rho[d] = np.exp(np.log(self.wproposals[d]) + q_d - q_x)
                self._num_q_evals += len(new_samples)

            new_weights /= np.sum(new_weights)
''')
h("w1h-rj-helper", SAMP + ",C12", RJ, ["            acceptance_ratio = proposals_prob_p / proposals_prob_q\n", "    def draw(self, ax):\n"], ["            acceptance_ratio = self._ratio(proposals_prob_p, proposals_prob_q)\n", "    @staticmethod\n    def _ratio(p, q):\n        return p / q\n\n    def draw(self, ax):\n"])
h("w1h-rj-missing", SAMP + ",C12", RJ, ["            proposals = self.proposal_dist.sample(n_samples - len(self.samples))\n", "size=n_samples - len(self.samples))"], ["            missing = n_samples - len(self.samples)\n            proposals = self.proposal_dist.sample(missing)\n", "size=missing)"])
h("w1h-rj-rand", SAMP + ",C12", RJ, "np.random.uniform(0, 1, size=n_samples - len(self.samples))", "np.random.rand(len(proposals))")
h("w1h-rj-where", SAMP + ",C12", RJ, "            accept_idx = (acceptance_ratio > acceptance_prob).reshape(-1)\n", "            accept_idx = np.flatnonzero((acceptance_ratio > acceptance_prob).reshape(-1))\n")
h("w1h-rj-wlen", SAMP + ",C12", RJ, "        self.weights = np.ones_like(self.weights) * 1 / len(self.weights)\n", "        self.weights = np.full(len(self.samples), 1 / len(self.samples))\n")
h("w1h-rj-mult", SAMP + ",C12", RJ, "            accept_idx = (acceptance_ratio > acceptance_prob).reshape(-1)\n", "            accept_idx = (proposals_prob_p > acceptance_prob * proposals_prob_q).reshape(-1)\n")
h("w1h-la-unpack", SAMP + ",C09,C12", LA, "            x = x_hat if ratio > alpha else x\n", "            if ratio > alpha:\n                x = x_hat\n")
h("w1h-la-cross", SAMP + ",C09,C12", LA, ["            ratio = new_val / old_val\n", "            x = x_hat if ratio > alpha else x\n"], ["", "            if new_val > alpha * old_val:\n                x = x_hat\n"])
h("w1h-la-after", SAMP + ",C09,C12", LA, "            x = x_hat if ratio > alpha else x\n            prop_d.set_moments(x, np.diag(t_tensor([self.sigma] * len(self.space_max))))\n        return prop_d.loc\n", "            x = x_hat if ratio > alpha else x\n        return x\n")
h("w1h-ns-argmin", SAMP + ",C09,C16", NEF, "            Lmin = np.min(values)\n            min_idx = np.argmin(values)\n", "            min_idx = np.argmin(values)\n            Lmin = values[min_idx]\n")
h("w1h-ns-arange", SAMP + ",C16", NEF, "        X = np.array([np.exp(-i / self.N) for i in range(len(self.samples))])\n        W = np.array([X[i - 1] - X[i] for i in range(1, len(self.samples))])\n        W = np.concatenate((np.array([X[0]]), W))\n", "        X = np.exp(-np.arange(len(self.samples)) / self.N)\n        W = np.concatenate((X[:1], X[:-1] - X[1:]))\n")
h("w1h-ns-diff", SAMP + ",C16", NEF, "        W = np.array([X[i - 1] - X[i] for i in range(1, len(self.samples))])\n", "        W = -np.diff(X)\n")
h("w1h-ns-retry", SAMP + ",C09,C16", NEF, '''        new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)
        self._num_q_samples += 1
        new_value = pdf.prob(new_sample)
        self._num_pi_evals += 1
        elapsed_time = 0
        t_ini = time.time()
        # print("Ellipsoid''', '''        new_sample, new_value = self._move(sample, pdf)
        elapsed_time = 0
        t_ini = time.time()
        # print("Ellipsoid''')
M.pop() if M and M[-1][0] == "w1h-ns-retry" else H.pop()
h("w1h-ns-retry", SAMP + ",C09,C16", NEF, ['''        new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)
        self._num_q_samples += 1
        new_value = pdf.prob(new_sample)
        self._num_pi_evals += 1
        elapsed_time = 0
''', '''            new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)
            self._num_q_samples += 1
            new_value = pdf.prob(new_sample)
            self._num_pi_evals += 1
''', "    def get_NESS(self):\n"], ["        new_sample, new_value = self._move(sample, pdf)\n        elapsed_time = 0\n", "            new_sample, new_value = self._move(sample, pdf)\n", '''    def _move(self, sample, pdf):
        moved = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)
        self._num_q_samples += 1
        self._num_pi_evals += 1
        return moved, pdf.prob(moved)

    def get_NESS(self):
'''])
h("w1h-ns-pop", SAMP + ",C16", NEF, "        for i in range(n_samples - len(self.samples)):\n", "        while len(self.samples) < n_samples:\n")
h("w1h-pm-rho2", "C15", PMF, "                    rho[d][i] = np.exp(np.log(alpha_d) + q_d - q_x)\n", "                    rho[d, i] = np.exp(np.log(alpha_d) + q_d - q_x)\n")
h("w1h-pm-rho3", "C15", PMF, "                    rho[d][i] = np.exp(np.log(alpha_d) + q_d - q_x)\n", "                    rho[d][i] = alpha_d * np.exp(q_d - q_x)\n")
METP = "C30,C31,C32,C33,C42"
DISP = "C20,C21,C22,C23,C25,C26,C27,C28"
MIXP = "C20,C22,C23,C24,C26,C27,C08,C06"
TREP = "C10,C06,C03,C08,C01,C02"
h("w2h-kl-index", METP, DV, '''        res = np.exp(p_samples_logprob[inliers]) * (p_samples_logprob[inliers] - q_samples_logprob[inliers])
        res[np.isnan(q_samples_logprob[inliers])] = np.inf
        return res
''', '''        log_p, log_q = p_samples_logprob[inliers], q_samples_logprob[inliers]
        return np.where(np.isnan(log_q), np.inf, np.exp(log_p) * (log_p - log_q))
''')
h("w2h-kl-local", METP, DV, '''        p_samples_logprob[inliers] -= np.logaddexp.reduce(p_samples_logprob[inliers])
        q_samples_logprob[inliers] -= np.logaddexp.reduce(q_samples_logprob[inliers])

        # Compute discrete KL for each sample
        res = np.exp(p_samples_logprob[inliers]) * (p_samples_logprob[inliers] - q_samples_logprob[inliers])
        res[np.isnan(q_samples_logprob[inliers])] = np.inf
        return res
''', '''        log_p = p_samples_logprob[inliers]
        log_q = q_samples_logprob[inliers]
        log_p = log_p - np.logaddexp.reduce(log_p)
        log_q = log_q - np.logaddexp.reduce(log_q)

        # Compute discrete KL for each sample
        res = np.exp(log_p) * (log_p - log_q)
        res[np.isnan(log_q)] = np.inf
        return res
''')
h("w2h-kl-helper", METP, DV, ['''        p_samples_logprob[inliers] -= np.logaddexp.reduce(p_samples_logprob[inliers])
        q_samples_logprob[inliers] -= np.logaddexp.reduce(q_samples_logprob[inliers])
''', "class CKLDivergence(CDivergence):\n"], ['''        p_samples_logprob[inliers] = _normalised(p_samples_logprob[inliers])
        q_samples_logprob[inliers] = _normalised(q_samples_logprob[inliers])
''', '''def _normalised(log_vals):
    return log_vals - np.logaddexp.reduce(log_vals)


class CKLDivergence(CDivergence):
'''])
h("w2h-jsd-local", METP, DV, '''        p_samples_prob[inliers] = p_samples_prob[inliers] / np.sum(p_samples_prob[inliers])
        q_samples_prob[inliers] = q_samples_prob[inliers] / np.sum(q_samples_prob[inliers])

        m_samples_prob = 0.5 * (p_samples_prob[inliers] + q_samples_prob[inliers])

        # Renormalize to avoid precision issues
        m_samples_prob = m_samples_prob / np.sum(m_samples_prob)

        res = 0.5 * p_samples_prob[inliers] * np.log(p_samples_prob[inliers] / m_samples_prob) + \\
              0.5 * q_samples_prob[inliers] * np.log(q_samples_prob[inliers] / m_samples_prob)
''', '''        pn = p_samples_prob[inliers]
        pn = pn / pn.sum()
        qn = q_samples_prob[inliers]
        qn = qn / qn.sum()

        m = (pn + qn) / 2
        m /= m.sum()

        res = 0.5 * (pn * np.log(pn / m) + qn * np.log(qn / m))
''')
h("w2h-jsd-mask", METP, DV, '''        inliers = np.logical_and(p_samples_prob > 0, q_samples_prob > 0)
        inliers = np.logical_and(inliers, np.logical_not(np.isnan(q_samples_prob)))
        inliers = np.logical_and(inliers, np.logical_not(np.isnan(p_samples_prob)))
''', '''        inliers = (p_samples_prob > 0) & (q_samples_prob > 0)
''')
h("w2h-jsd-value", METP, DV, '''        self.value = res.sum() / self.log2
        return res.sum() / self.log2
''', '''        self.value = np.sum(res) / self.log2
        return self.value
''')
h("w2h-jsd-nansum", METP, DV, '''        res = res[np.logical_not(np.isnan(res))]

        self.value = res.sum() / self.log2
        return res.sum() / self.log2
''', '''        self.value = np.nansum(res) / self.log2
        return self.value
''')
h("w2h-ev-dot", METP, ST, '''        EV_P = np.sum(samples * samples_pprob.reshape(-1,1), axis=0)
        EV_Q = np.sum(samples * samples_qprob.reshape(-1,1), axis=0)
        res = (EV_P - EV_Q) @ np.transpose(EV_P - EV_Q)
''', '''        diff = samples_pprob @ samples - samples_qprob @ samples
        res = np.dot(diff, diff)
''')
h("w2h-ev-sum", METP, ST, '''        res = (EV_P - EV_Q) @ np.transpose(EV_P - EV_Q)
''', '''        res = np.sum((EV_P - EV_Q) ** 2)
''')
h("w2h-ev-avg", METP, ST, '''        EV_P = np.sum(samples * samples_pprob.reshape(-1,1), axis=0)
''', '''        EV_P = np.average(samples, axis=0, weights=samples_pprob)
''')
h("w2h-ev-norm", METP, ST, "        samples_pprob /= np.sum(samples_pprob)\n        samples_qprob /= np.sum(samples_qprob)\n", "        samples_pprob = samples_pprob / samples_pprob.sum()\n        samples_qprob = samples_qprob / samples_qprob.sum()\n")
h("w2h-time-var", METP, PF, "        self.t_end = timer()\n        self.value += self.t_end - self.t_ini - self.overhead\n", "        self.t_end = timer()\n        elapsed = self.t_end - self.t_ini\n        self.value = self.value + (elapsed - self.overhead)\n")
h("w2h-mem-var", METP, PF, "        self.mem_cum += self.mem_end - self.mem_ini\n        self.value = self.mem_cum / 10**6\n", "        grown = self.mem_end - self.mem_ini\n        self.mem_cum = self.mem_cum + grown\n        self.value = self.mem_cum * 1e-6\n")
h("w2h-no-einsum", DISP, NO, "        term3 = -0.5 * (np.transpose(diff, axes=(0, 2, 1)) @ self.inv_cov @ diff)\n        return (self.term1 + self.term2 + term3).reshape(len(samples))\n", "        diff = diff.reshape(len(samples), self.dims)\n        term3 = -0.5 * np.einsum('ij,jk,ik->i', diff, self.inv_cov, diff)\n        return self.term1 + self.term2 + term3\n")
h("w2h-no-sum", DISP, NO, "        diff = (self._loc.reshape(1, self.dims) - samples).reshape(len(samples), self.dims, 1)\n        term3 = -0.5 * (np.transpose(diff, axes=(0, 2, 1)) @ self.inv_cov @ diff)\n        return (self.term1 + self.term2 + term3).reshape(len(samples))\n", "        diff = samples - self._loc\n        maha = np.sum((diff @ self.inv_cov) * diff, axis=1)\n        return self.term1 + self.term2 - 0.5 * maha\n")
h("w2h-no-slogdet", DISP, NO, "        self.log_det = np.log(self.det)\n", "        self.log_det = np.linalg.slogdet(cov)[1]\n")
h("w2h-un-vals", DISP, UN, '''        min_val = self._loc - self._scale
        max_val = self._loc + self._scale
        # Select the inliers if all the coordinates are in range
        inliers = np.all(np.logical_and(min_val < samples, samples <= max_val), axis=1)
        res = np.full(len(samples), self.logprob_val)
        res[np.logical_not(inliers.flatten())] = -np.inf
        return res
''', '''        return np.where(self._inside(samples), self.logprob_val, -np.inf)

    def _inside(self, samples):
        low, high = self._loc - self._scale, self._loc + self._scale
        return ((samples > low) & (samples <= high)).all(axis=1)
''')
h("w2h-un-prob", DISP, UN, "        res = np.full(len(samples), self.prob_val)\n        res[np.logical_not(inliers.flatten())] = 0\n        return res\n", "        return inliers * self.prob_val\n")
h("w2h-un-exp", DISP, UN, "        res = np.full(len(samples), self.prob_val)\n        res[np.logical_not(inliers.flatten())] = 0\n        return res\n", "        res = np.zeros(len(samples))\n        res[inliers] = self.prob_val\n        return res\n")
h("w2h-un-sample", DISP, UN, "        res = np.random.uniform(low=minval, high=maxval, size=(n_samples, self.dims))\n        return res\n", "        return minval + (maxval - minval) * np.random.rand(n_samples, self.dims)\n")
h("w2h-mi-zip", MIXP, MI, "        for i in range(len(self.models)):\n            llikelihood[i] = self.models[i].log_prob(data)\n", "        for i, model in enumerate(self.models):\n            llikelihood[i, :] = model.log_prob(data)\n")
h("w2h-mi-acc", MIXP, MI, "        for i in range(len(self.models)):\n            likelihood[i] = np.exp(self.models[i].log_prob(data).flatten()) * self.weights[i]\n", "        for i, (model, w) in enumerate(zip(self.models, self.weights)):\n            likelihood[i] = w * np.exp(model.log_prob(data).flatten())\n")
h("w2h-mi-sample", MIXP, MI, '''        res = np.array([])
        for _ in range(n_samples):
            # Select the sampling proposal
            idx = np.argmax(np.random.multinomial(1, self.weights))
            q = self.models[idx]

            # Sample from the sampling proposal
            x = q.sample(1)
            res = np.concatenate((res, x)) if res.size else x
        return res
''', '''        drawn = []
        for _ in range(n_samples):
            q = self.models[np.argmax(np.random.multinomial(1, self.weights))]
            drawn.append(q.sample(1))
        return np.concatenate(drawn)
''')
h("w2h-mi-choice", MIXP, MI, "            idx = np.argmax(np.random.multinomial(1, self.weights))\n", "            idx = np.random.choice(len(self.models), p=self.weights)\n")
h("w2h-mi-choices", MIXP, MI, '''        res = np.array([])
        for _ in range(n_samples):
            # Select the sampling proposal
            idx = np.argmax(np.random.multinomial(1, self.weights))
            q = self.models[idx]

            # Sample from the sampling proposal
            x = q.sample(1)
            res = np.concatenate((res, x)) if res.size else x
        return res
''', '''        picks = np.random.choice(len(self.models), size=n_samples, p=self.weights)
        return np.vstack([self.models[i].sample(1) for i in picks])
''')
h("w2h-mi-weights", MIXP, MI, '''        if weights.sum() <= 0:
''', '''        total = weights.sum()
        if total <= 0:
''')
h("w2h-mi-copy", MIXP, MI, "            weights[nan_indices] = 0\n", "            weights = np.where(nan_indices, 0, weights)\n")
h("w2h-tp-vec", TREP, T_, '''        p_centers = []
        for N, coeff in enumerate(center_coeffs):
            offset = (node.radius / 2) * t_tensor(coeff)
            p_centers.append(node.center + offset)
''', '''        p_centers = [node.center + (node.radius / 2) * t_tensor(coeff) for coeff in center_coeffs]
        N = len(p_centers) - 1
''')
h("w2h-tp-loop", TREP, T_, '''        new_nodes = [CTreePyramidNode(center=center, radius=new_radius, weight=node.weight / (N + 1),
                                      leaf_idx=len(self.leaves) + i - 1, node_idx=len(self.nodes) + i,
                                      level=node.level + 1, kernel=self.kernel) for i, center in enumerate(p_centers)]
''', '''        new_nodes = []
        share = node.weight / len(p_centers)
        for i, center in enumerate(p_centers):
            new_nodes.append(CTreePyramidNode(center=center, radius=new_radius, weight=share,
                                              leaf_idx=len(self.leaves) - 1 + i, node_idx=len(self.nodes) + i,
                                              level=node.level + 1, kernel=self.kernel))
''')
h("w2h-tp-vstack", TREP, T_, '''        self.centers = np.concatenate((self.centers, t_tensor(p_centers)))
        self.radii = np.concatenate((self.radii, np.repeat(new_radius.reshape(1, -1), len(new_nodes), axis=0)))
''', '''        self.centers = np.vstack([self.centers] + p_centers)
        self.radii = np.vstack([self.radii] + [new_radius] * len(new_nodes))
''')
h("w2h-tp-order", TREP, T_, '''        self.leaves_idx[node.node_idx] = False
        node.children = new_nodes
        node.leaf_idx = -1
''', '''        node.leaf_idx = -1
        node.children = new_nodes
        self.leaves_idx[node.node_idx] = False
''')
h("w2h-tp-append", TREP, T_, '''        self.samples = np.concatenate((self.samples, np.zeros((len(new_nodes), self.ndims))))
        self.weights = np.concatenate((self.weights, np.zeros(len(new_nodes))))
''', '''        for _ in new_nodes:
            self.samples = np.vstack((self.samples, np.zeros((1, self.ndims))))
            self.weights = np.append(self.weights, 0.0)
''')
h("w2h-tp-ess", TREP, T_, "            ESS = (np.sum(node.weight_hist) * np.sum(node.weight_hist)) / np.sum(node.weight_hist * node.weight_hist)\n", "            w = node.weight_hist\n            ESS = w.sum() ** 2 / (w ** 2).sum()\n")
h("w2h-bs-ness", "C13,C14", BS, "        normweights = self.weights / np.sum(self.weights)\n        ESS = 1 / np.sum(normweights*normweights)\n        return ESS / len(self.samples)\n", "        w = self.weights / self.weights.sum()\n        return 1 / (np.dot(w, w) * len(self.samples))\n")
h("w2h-bs-model", "C08,C14,C07,C20", BS, '''    def prob(self, s):
        if self.model is None:
            self._update_model()
        return self.model.prob(s)

    def log_prob(self, s):
        if self.model is None:
            self._update_model()
        return self.model.log_prob(s)
''', '''    def _current_model(self):
        if self.model is None:
            self._update_model()
        return self.model

    def prob(self, s):
        return self._current_model().prob(s)

    def log_prob(self, s):
        return self._current_model().log_prob(s)
''')
h("w2h-bs-kde", "C08,C14,C07,C20", BS, '''        for idx in indices:
            x = self.samples[idx]
            cov =''', '''        for x in self.samples[indices]:
            cov =''')
h("w2h-mh-move", "C12,C09,C05,C01,C02,C04", MH, '''        if accepted:
            x_old = x_new
            self.trajectory_types[-1] = self.ACCEPT
        return x_old
''', '''        if not accepted:
            return x_old
        self.trajectory_types[-1] = self.ACCEPT
        return x_new
''')
h("w2h-mh-exp", "C12,C09,C05,C01,C02,C04", MH, "            accepted = alpha > np.log(accept)\n", "            accepted = np.log(accept) < alpha\n")
h("w2h-mh-old", "C12,C09,C05,C02,C04", MH, ["        x_new = x_old\n        while not accepted", "            pi_x_old = self.target_d.log_prob(x_old)\n            self._num_pi_evals += 2\n"], ["        x_new = x_old\n        pi_x_old = self.target_d.log_prob(x_old)\n        self._num_pi_evals += 1\n        while not accepted", "            self._num_pi_evals += 1\n"])
HIDP = "C01,C02,C03,C06,C08,C11,C05"
h("w3h-hd-swap", HIDP, H_, '''        for x in n.samples:
            if x[sel_dim] < n_left.center[sel_dim] + n_left.radius[sel_dim]:
                if n_left.prob(x) <= 0:
                    raise ValueError("pl(x) = %f ; pr(x) = %f " % (n_left.prob(x), n_right.prob(x)))
                w = target_d.prob(x) / n_left.prob(x)
                n_left.add_sample(np.array([x]), w)
            else:
                if n_right.prob(x) <= 0:
                    raise ValueError("pl(x) = %f ; pr(x) = %f " % (n_left.prob(x), n_right.prob(x)))
                w = target_d.prob(x) / n_right.prob(x)
                n_right.add_sample(np.array([x]), w)
''', '''        border = n_left.center[sel_dim] + n_left.radius[sel_dim]
        for x in n.samples:
            child = n_left if x[sel_dim] < border else n_right
            q = child.prob(x)
            if q <= 0:
                raise ValueError("pl(x) = %f ; pr(x) = %f " % (n_left.prob(x), n_right.prob(x)))
            child.add_sample(np.array([x]), target_d.prob(x) / q)
''')
h("w3h-hd-copy", HIDP, H_, "        new_rad = np.copy(n.radius)\n", "        new_rad = n.radius.copy()\n")
h("w3h-hd-offset", HIDP, H_, '''        new_rad[sel_dim] /= 2
        c_left = np.copy(n.center)
        c_right = np.copy(n.center)
        c_left[sel_dim] -= new_rad[sel_dim]
        c_right[sel_dim] += new_rad[sel_dim]
''', '''        new_rad[sel_dim] = new_rad[sel_dim] * 0.5
        offset = np.zeros(self.dims)
        offset[sel_dim] = new_rad[sel_dim]
        c_left = n.center - offset
        c_right = n.center + offset
''')
h("w3h-hd-leaves", HIDP, H_, "        self.leaves.append(n_left.idx)\n        self.leaves.append(n_right.idx)\n", "        self.leaves += [n_left.idx, n_right.idx]\n")
h("w3h-hd-nodes", HIDP, H_, "        self.nodes.append(n_left)\n        self.nodes.append(n_right)\n\n", "        self.nodes.extend((n_left, n_right))\n\n")
h("w3h-hd-ess", HIDP, H_, "        self.ESS = (np.sum(self.weights) * np.sum(self.weights)) / np.sum(self.weights * self.weights)\n", "        total = self.weights.sum()\n        self.ESS = total ** 2 / np.dot(self.weights, self.weights)\n")
h("w3h-hd-prob", HIDP, H_, ["            assert n.prob(x_i) > 0\n            w_i = target_d.prob(x_i) / n.prob(x_i)\n"], ["            q_i = n.prob(x_i)\n            assert q_i > 0\n            w_i = target_d.prob(x_i) / q_i\n"])
h("w3h-hd-pick", HIDP, H_, "                qil = self.T.nodes[n_id].left.q\n                qir = self.T.nodes[n_id].right.q\n                q_left = qil / (qir + qil)\n                n_id = self.T.nodes[n_id].left.idx if r < q_left else self.T.nodes[n_id].right.idx\n", "                node = self.T.nodes[n_id]\n                q_left = node.left.q / (node.left.q + node.right.q)\n                if r < q_left:\n                    n_id = node.left.idx\n                else:\n                    n_id = node.right.idx\n")
h("w3h-tp-root", TREP + ",C04,C05", T_, ['''        # When the tree is created the root node is not sampled. Make sure it has one sample.
        if hasattr(self.T.root, "weight_hist") and self.T.root.weight_hist is None:
            self.T.root.sample(self.T.root.sampler)
            self.T.samples[self.T.root.node_idx] = self.T.root.coords
            self._num_q_samples += 1
            self.T.root.weigh(target_d, self.T.root.sampler)
            self._num_pi_evals += 1  # Count the evaluation operation
            self._num_q_evals += 1  # Count the evaluation operation
            self.T.weights[self.T.root.node_idx] = self.T.root.weight
            self._update_model()
''', "    def find_unique(self, samples):\n"], ['''        self._start_root(target_d)
''', '''    def _start_root(self, target_d):
        root = self.T.root
        if not hasattr(root, "weight_hist") or root.weight_hist is not None:
            return
        root.sample(root.sampler)
        self.T.samples[root.node_idx] = root.coords
        self._num_q_samples += 1
        root.weigh(target_d, root.sampler)
        self._num_pi_evals += 1
        self._num_q_evals += 1
        self.T.weights[root.node_idx] = root.weight
        self._update_model()

    def find_unique(self, samples):
'''])
h("w3h-tp-new", TREP + ",C04,C05", T_, ['''            for node in new_nodes:
                node.sample(self.model)
                self.T.samples[node.node_idx] = node.coords
                self._num_q_samples += 1  # Count the sample operation

                node.weigh(target_d, self.model)
                self._num_pi_evals += 1  # Count the evaluation operation
                self._num_q_evals += 1  # Count the evaluation operation
                self.T.weights[node.node_idx] = node.weight
''', "    def find_unique(self, samples):\n"], ['''            for node in new_nodes:
                self._visit(node, target_d, self.model)
''', '''    def _visit(self, node, target_d, q):
        node.sample(q)
        node.weigh(target_d, q)
        self._num_q_samples += 1
        self._num_pi_evals += 1
        self._num_q_evals += 1
        i = node.node_idx
        self.T.samples[i], self.T.weights[i] = node.coords, node.weight

    def find_unique(self, samples):
'''])
h("w3h-tp-unique", TREP, T_, '''            if node in nodes:
                freqs[nodes.index(node)] += 1
            else:
                nodes.append(node)
                freqs.append(1)
''', '''            if node not in nodes:
                nodes.append(node)
                freqs.append(1)
            else:
                freqs[nodes.index(node)] += 1
''')
