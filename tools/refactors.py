"""Behaviour-preserving rewrites, on which the checks must stay quiet and still decide (a tool; no check uses it).

    refactors.py [-j N] [id ...] [CNN ...]
"""
import os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
OTF, UT, ZN, PR, MI, DI, LV = ("pyotf/%s.py" % n for n in
                               ("otf", "utils", "zernike", "phaseretrieval", "microscope", "display", "labview"))
R = []


def ref(id, props, *edits):
    R.append((id, props.split(), edits))


ref("hanser-coords", "C01 C03 C05 C06 C07 C08 C17 C18 C19",
    (OTF, '''        kxx, kyy = np.meshgrid(k, k)
        self._kr, self._phi = cart2pol(kyy, kxx)
''', '''        kx, ky = k[np.newaxis, :], k[:, np.newaxis]
        self._kr = np.hypot(kx, ky)
        self._phi = np.arctan2(ky, kx)
'''),
    (OTF, "return (kr < diff_limit).astype(complex)", "return np.where(kr < diff_limit, 1.0 + 0.0j, 0.0j)"),
    (OTF, "return np.exp(2 * np.pi * 1j * kz * self.zrange[:, np.newaxis, np.newaxis])",
     "return np.exp(2j * np.pi * np.multiply.outer(self.zrange, kz))"),
    (OTF, "return (abs(self.PSFa) ** 2).sum(axis=0)", "amp = self.PSFa\n        return np.sum(amp.real ** 2 + amp.imag ** 2, axis=0)"))

ref("hanser-terms", "C01 C03 C05 C06 C07",
    (OTF, '''            plist = []
            if self.vec_corr == "z" or self.vec_corr == "total":
                plist.append(np.sin(theta) * np.cos(phi))  # Pzx
                plist.append(np.sin(theta) * np.sin(phi))  # Pzy
            if self.vec_corr == "y" or self.vec_corr == "total":
                plist.append((np.cos(theta) - 1) * np.sin(phi) * np.cos(phi))  # Pyx
                plist.append(np.cos(theta) * np.sin(phi) ** 2 + np.cos(phi) ** 2)  # Pyy
            if self.vec_corr == "x" or self.vec_corr == "total":
                plist.append(np.cos(theta) * np.cos(phi) ** 2 + np.sin(phi) ** 2)  # Pxx
                plist.append((np.cos(theta) - 1) * np.sin(phi) * np.cos(phi))  # Pxy
            # apply the corrections to the base pupil
            pupils = pupil * np.array(plist)[:, np.newaxis]
''', '''            ct, st = np.cos(theta), np.sin(theta)
            cp, sp = np.cos(phi), np.sin(phi)
            cross = (ct - 1) * sp * cp
            terms = dict(
                z=lambda: (st * cp, st * sp),
                y=lambda: (cross, ct * sp ** 2 + cp ** 2),
                x=lambda: (ct * cp ** 2 + sp ** 2, cross),
            )
            wanted = "zyx" if self.vec_corr == "total" else self.vec_corr
            pupils = np.stack([pupil * t for w in wanted for t in terms[w]()])
'''),
    (OTF, '''            if self.condition == "sine":
                a = 1.0 / np.sqrt(np.cos(theta))
            elif self.condition == "herschel":
                a = 1.0 / np.cos(theta)
            else:
                raise RuntimeError("You should never see this")
            pupil *= a
''', '''            power = {"sine": -0.5, "herschel": -1.0}[self.condition]
            pupil = pupil * np.cos(theta) ** power
'''),
    (OTF, "PSFa = fftshift(ifftn(pupils, axes=(2, 3)), axes=(2, 3))", "PSFa = np.fft.fftshift(np.fft.ifft2(pupils), axes=(-2, -1))"))

ref("attr-cache", "C01 C02 C05 C23",
    (OTF, '''        for attr in ("PSFa", "OTFa", "PSFi", "OTFi"):
            try:
                delattr(self, attr)
            except AttributeError:
                logger.debug(f"{attr} wasn't available to delete")
''', '''        for attr in {"PSFa", "OTFa", "PSFi", "OTFi"} & set(vars(self)):
            self.__dict__.pop(attr)
'''),
    (OTF, '''        if not value > 0:
            raise ValueError("zres must be positive")
        self._zres = value
        self._attribute_changed()
''', '''        if value > 0:
            self._zres = value
            self._attribute_changed()
        else:
            raise ValueError("zres must be positive")
'''),
    (MI, '''        try:
            del self.PSF
        except AttributeError:
            pass
        # try removing the PSF
        try:
            del self.OTF
        except AttributeError:
            pass
''', '''        for name in ("PSF", "OTF"):
            self.__dict__.pop(name, None)
'''),
    (UT, '''                if getattr(obj, self.attr, None) != value:
                    setattr(obj, self.attr, value)
                    # call update code
                    obj._attribute_changed()
''', '''                if hasattr(obj, self.attr) and getattr(obj, self.attr) == value:
                    return
                setattr(obj, self.attr, value)
                obj._attribute_changed()
'''))

ref("sheppard", "C01 C04 C05 C07",
    (OTF, "        kr = norm(k_tot, axis=0)\n", "        kr = np.sqrt(sum(kk ** 2 for kk in k_tot))\n"),
    (OTF, "self.valid_points = np.logical_and(abs(kr - kmag) < dkr, kzz > kz_min + dkr)",
     "near_shell = np.abs(kr - kmag) < dkr\n        self.valid_points = near_shell & (kzz - dkr > kz_min)"),
    (OTF, "m, n, s = np.array((kxx, kyy, kzz)) / norm((kxx, kyy, kzz), axis=0)",
     "length = np.sqrt(kxx ** 2 + kyy ** 2 + kzz ** 2)\n        m, n, s = kxx / length, kyy / length, kzz / length"),
    (OTF, '''            otf = np.zeros((len(plist), self.zsize, self.size, self.size), dtype="D")
            # fill in the valid poins
            for o, p in zip(otf, plist):
                o[self.valid_points] = p * a
''', '''            otf = np.zeros((len(plist),) + self.valid_points.shape, dtype=complex)
            # fill in the valid poins
            otf[:, self.valid_points] = np.array(plist) * a
'''))

ref("aberration", "C08 C25",
    (OTF, '''    pupil_phase = (zerns * pcoefs[:, None, None]).sum(0)
    pupil_mag = (zerns * mcoefs[:, None, None]).sum(0)

    # apply aberrations to unaberrated pupil (N.B. the unaberrated phase is 0)
    pupil_mag += abs(model._gen_pupil())

    # generate the PSF, assign to attribute
    pupil_total = pupil_mag * np.exp(1j * pupil_phase)
''', '''    pupil_phase = np.tensordot(pcoefs, zerns, axes=1)
    pupil_mag = np.einsum("i,ijk->jk", mcoefs, zerns) + np.abs(model._gen_pupil())
    pupil_total = pupil_mag * (np.cos(pupil_phase) + 1j * np.sin(pupil_phase))
'''),
    (OTF, '''    pcoefs = np.zeros(len(name2noll))
    for aberration, magnitude in aberrations.items():
        # Sum phase coefficients
        pcoefs = np.add(pcoefs, named_aberration_to_pcoefs(aberration, magnitude))
    return apply_aberration(model, None, pcoefs)
''', '''    parts = [named_aberration_to_pcoefs(name, mag) for name, mag in aberrations.items()]
    return apply_aberration(model, None, sum(parts, np.zeros(len(name2noll))))
'''))

ref("transforms", "C05 C11 C17",
    (UT, "    return fftshift(fftn(ifftshift(data, axes=axes), axes=axes), axes=axes)\n", '''    if axes is None:
        axes = range(np.ndim(data))
    for ax in axes:
        data = np.fft.fftshift(np.fft.fft(np.fft.ifftshift(data, ax), axis=ax), ax)
    return data
'''),
    (UT, "    return fftshift(ifftn(ifftshift(data, axes=axes), axes=axes), axes=axes)\n", '''    shifted = ifftshift(data, axes=axes)
    return fftshift(np.conj(fftn(np.conj(shifted), axes=axes)) * (ifftn(np.ones_like(shifted[tuple([slice(1)] * shifted.ndim)])).item() if False else 1), axes=axes) / (
        np.prod([data.shape[a] for a in (range(data.ndim) if axes is None else axes)]))
'''))

ref("pads", "C12 C13 C15",
    (UT, '''    slices = tuple(_calc_crop(s1, s2) for s1, s2 in padding)
    # leave 0 pad width where it was cropped
    padding = [(max(s1, 0), max(s2, 0)) for s1, s2 in padding]
''', '''    slices, widths = [], []
    for s1, s2 in padding:
        slices.append(_calc_crop(s1, s2))
        widths.append((s1 if s1 > 0 else 0, s2 if s2 > 0 else 0))
    slices, padding = tuple(slices), widths
'''),
    (UT, '''    width = newnum - oldnum
    # calculate one side, smaller
    pad_s = width // 2
    # calculate the other, bigger
    pad_b = width - pad_s
    # if oldnum is odd and newnum is even
    # we want to pull things backward
    if oldnum % 2:
        pad1, pad2 = pad_s, pad_b
    else:
        pad1, pad2 = pad_b, pad_s
    return pad1, pad2
''', '''    half, rest = divmod(newnum - oldnum, 2)
    return (half, half + rest) if oldnum % 2 == 1 else (half + rest, half)
'''),
    (UT, '''        if xend <= 0:
            xstart, xend = 0, 0
        # the max calls are to make slice_maker play nice with edges.
        toreturn.append(slice(max(0, xstart), xend))
''', '''        xstart, xend = np.clip((xstart, xend), 0, None)
        toreturn.append(slice(int(xstart), int(xend)))
'''))

ref("prep", "C15 C25 C26",
    (UT, '''    # copy data
    centered_data = data.copy()
    # extract shape and max location
    data_shape = data.shape
    max_loc = np.unravel_index(data.argmax(), data_shape)
    # iterate through dimensions and roll data to the right place
    for i, (x0, nx) in enumerate(zip(max_loc, data_shape)):
        centered_data = np.roll(centered_data, nx // 2 - x0, i)
    return centered_data
''', '''    max_loc = np.unravel_index(np.argmax(data), data.shape)
    shifts = tuple(nx // 2 - x0 for x0, nx in zip(max_loc, data.shape))
    return np.roll(data, shifts, axis=tuple(range(data.ndim)))
'''),
    (UT, "    return np.fmax(0, pad_data)\n", "    return np.clip(pad_data, 0, None)\n"),
    (UT, "    return np.sqrt(np.fmax(0, data))\n", "    return np.sqrt(np.where(np.asarray(data) > 0, data, 0))\n"))

ref("mode", "C15 C26",
    (UT, "    mode = np.bincount(data.ravel()).argmax()\n", "    values, counts = np.unique(data, return_counts=True)\n    mode = values[np.argmax(counts)]\n"))

ref("binning", "C14 C20 C27",
    (UT, '''    compression_pairs = [(d, c // d) for d, c in zip(new_shape, ndarray.shape)]

    flattened = [l for p in compression_pairs for l in p]

    ndarray = ndarray.reshape(flattened)

    for i in range(len(new_shape)):
        op = getattr(ndarray, operation)
        ndarray = op(-1 * (i + 1))
    return ndarray
''', '''    flattened = []
    for d, c in zip(new_shape, ndarray.shape):
        flattened += [d, c // d]
    blocks = ndarray.reshape(flattened)
    axes = tuple(range(1, blocks.ndim, 2))
    return blocks.sum(axis=axes) if operation == "sum" else blocks.mean(axis=axes)
'''))

ref("profile", "C16 C27",
    (UT, '''    idx2 = idx - center[(Ellipsis,) + (np.newaxis,) * (data.ndim)]
    r = np.sqrt(np.sum([i ** 2 for i in idx2], 0))
''', '''    r = np.hypot(idx[0] - center[0], idx[1] - center[1])
'''),
    (UT, '''    tbin = np.bincount(r.ravel(), data.ravel())
    # find how many equal r's there are
    nr = np.bincount(r.ravel())
''', '''    flat = r.ravel()
    tbin = np.bincount(flat, weights=data.ravel(), minlength=flat.max() + 1)
    nr = np.zeros(flat.max() + 1, dtype=int)
    np.add.at(nr, flat, 1)
'''))

ref("zernike-sum", "C08 C10 C18 C25",
    (ZN, "    jacobi = eval_jacobi(coef, m, 0, 1 - 2 * rprime ** 2)\n    rad_zern[valid_points] = (-1) ** coef * rprime ** m * jacobi\n",
     '''    total = np.zeros_like(rprime)
    for k in range(coef + 1):
        c = math.factorial(n - k) // (math.factorial(k) * math.factorial((n + m) // 2 - k) * math.factorial(coef - k))
        total += (-1) ** k * float(c) * rprime ** (n - 2 * k)
    rad_zern[valid_points] = total
'''),
    (ZN, "import numpy as np\n", "import math\n\nimport numpy as np\n"),
    (ZN, "    return np.array([_zernike(r, theta, nn, mm, **kwargs) for nn, mm in zip(n, m)]).squeeze()\n",
     "    out = np.empty((len(n),) + r.shape)\n    for i, (nn, mm) in enumerate(zip(n, m)):\n        out[i] = _zernike(r, theta, int(nn), int(mm), **kwargs)\n    return np.squeeze(out)\n"))

ref("zernike-mask", "C08 C10",
    (ZN, '''    rad_zern = np.zeros_like(r)
    # zernike polynomials are only valid for r <= 1
    valid_points = r <= 1.0
    if m == 0 and n == 0:
        rad_zern[valid_points] = 1
        return rad_zern
    rprime = r[valid_points]
''', '''    inside = r <= 1.0
    if m == 0 and n == 0:
        return np.where(inside, 1.0, 0.0)
    rprime = r
'''),
    (ZN, "    rad_zern[valid_points] = (-1) ** coef * rprime ** m * jacobi\n    return rad_zern\n",
     "    return np.where(inside, (-1) ** coef * rprime ** m * jacobi, 0.0)\n"),
    (ZN, '''        if m == 0:
            # m is zero
            norm = np.sqrt(n + 1)
        else:
            # m not zero
            norm = np.sqrt(2 * (n + 1))
        zern *= norm
''', '''        zern = zern * np.sqrt((1 if m == 0 else 2) * (n + 1))
'''))

ref("noll", "C09 C10",
    (ZN, '''    n = np.ceil((-3 + np.sqrt(9 + 8 * p)) / 2)
    m = 2 * p - n * (n + 2)
    return n.astype(int), m.astype(int)
''', '''    n = np.floor((np.sqrt(8 * p + 1) - 1) / 2).astype(int)
    return n, 2 * p - n * (n + 2)
'''),
    (ZN, '''    p = (m + n * (n + 2)) / 2
    noll = noll_mapping[p.astype(int)]
    return noll
''', '''    return noll_mapping[(m + n * (n + 2)) // 2]
'''),
    (ZN, "    if not (noll > 0).all():\n", "    if (noll < 1).any():\n"))

ref("retrieval", "C17 C25 C26",
    (PR, '''        # keep phase
        phase = np.angle(model.PSFa.squeeze())
        # replace magnitude with experimentally measured mag
        new_psf = mag * np.exp(1j * phase)
        # generate the new pupils
        new_pupils = fftn(ifftshift(new_psf, axes=(1, 2)), axes=(1, 2))
        # undo defocus and take the mean
        new_pupils /= model._calc_defocus()
        new_pupil = new_pupils.mean(0) * mask
        # if phase only discard magnitude info
        if phase_only:
            new_pupil = np.exp(1j * np.angle(new_pupil)) * mask
''', '''        new_pupil = _next_pupil(model, mag, mask, phase_only)
'''),
    (PR, '''def _calc_mse(data1, data2):
    """Calculate mean square error."""
    return ((data1 - data2) ** 2).mean()
''', '''def _next_pupil(model, mag, mask, phase_only):
    """One update of the pupil."""
    phase = np.angle(model.PSFa[0])
    field = mag * np.exp(1j * phase)
    pupils = np.fft.fft2(ifftshift(field, axes=(1, 2))) / model._calc_defocus()
    pupil = np.mean(pupils, axis=0) * mask
    return np.exp(1j * np.angle(pupil)) * mask if phase_only else pupil


def _calc_mse(data1, data2):
    """Calculate mean square error."""
    return np.mean(np.square(data1 - data2))
'''))

ref("retrieval-lists", "C17 C25",
    (PR, '''    mse = np.zeros(max_iters)
    mse_diff = np.zeros(max_iters)
    pupil_diff = np.zeros(max_iters)
''', '''    mse = np.full(max_iters, np.nan)
    mse_diff = mse.copy()
    pupil_diff = mse.copy()
'''),
    (PR, "pupil_diff[i] = (abs(old_pupil - new_pupil) ** 2).mean() / (abs(old_pupil) ** 2).mean()",
     "pupil_diff[i] = np.sum(abs(old_pupil - new_pupil) ** 2) / np.sum(abs(old_pupil) ** 2)"),
    (PR, '''        else:
            mse_diff[i] = np.nan
            pupil_diff[i] = np.nan
''', ''))

ref("zdecomp", "C18 C19",
    (PR, "    return (coefs[:, np.newaxis, np.newaxis] * zerns).sum(0)\n", "    return np.tensordot(coefs, zerns, axes=(0, 0))\n"),
    (PR, "    coefs, _, _, _ = lstsq(zerns2fit, data2fit, rcond=None, **kwargs)\n", "    coefs = np.linalg.lstsq(zerns2fit, data2fit, rcond=None, **kwargs)[0]\n"),
    (PR, "    zerns2fit = zerns[:, valid_points].T\n", "    zerns2fit = zerns.reshape(len(zerns), -1)[:, valid_points.ravel()].T\n"),
    (PR, "        return self.mag * np.exp(1j * self.phase)\n", "        return self.mag * np.cos(self.phase) + 1j * self.mag * np.sin(self.phase)\n"))

ref("genpsf", "C19 C25",
    (PR, '''        if size is not None:
            if nx < size:
                # if size is too small, pad it out, keeping the center at size // 2
                lb = size // 2 - nx // 2
                hb = size - nx - lb
                psf = np.pad(psf, ((0, 0), (lb, hb), (lb, hb)), mode="constant")
            elif nx > size:
                # if size is too big, crop it
                lb = size // 2
                hb = size - lb
                myslice = slice(nx // 2 - lb, nx // 2 + hb)
                psf = psf[:, myslice, myslice]
        # return data
        return psf
''', '''        if size is None or size == nx:
            return psf
        out = np.zeros((nz, size, size))
        shift = size // 2 - nx // 2
        dst = slice(max(shift, 0), max(shift, 0) + min(nx, size))
        src = slice(max(-shift, 0), max(-shift, 0) + min(nx, size))
        out[:, dst, dst] = psf[:, src, src]
        return out
'''))

ref("widefield", "C20 C21 C22 C23 C27",
    (MI, '''                shift = self.oversample_factor // 2
                psf = np.roll(psf, (shift, shift), axis=(1, 2))

            # only bin in the lateral direction
            psf = bin_ndarray(psf, bin_size=(1, self.oversample_factor, self.oversample_factor))
''', '''                shift = (self.oversample_factor - 1) // 2
                for axis in (1, 2):
                    psf = np.roll(psf, shift, axis)

            f = self.oversample_factor
            nz, ny, nx = psf.shape
            psf = psf.reshape(nz, ny // f, f, nx // f, f).sum((2, 4))
'''),
    (MI, "        return psf / psf.sum()\n", "        return np.divide(psf, np.sum(psf))\n"))

ref("confocal", "C21 C23",
    (MI, '''    full_size = int(np.ceil(radius * 2))
    if full_size % 2 == 0:
        full_size += 1
    coords = np.indices((full_size, full_size)) - (full_size - 1) // 2
    r = np.sqrt((coords ** 2).sum(0))
    kernel = r < radius
    return kernel / kernel.sum()
''', '''    half = int(np.ceil(radius))
    y, x = np.ogrid[-half : half + 1, -half : half + 1]
    kernel = (np.hypot(y, x) < radius).astype(float)
    return kernel / kernel.sum()
'''),
    (MI, '''        if pixel_pinhole_radius > 1.5:
            kernel = _disk_kernel(pixel_pinhole_radius)
            psf_det_au = fftconvolve(self.model.PSFi, kernel[None], "same", axes=(1, 2))
        else:
            psf_det_au = self.model.PSFi
        psf_con_au = psf_det_au * self.model_exc.PSFi
        return psf_con_au
''', '''        if pixel_pinhole_radius <= 1.5:
            return self.model.PSFi * self.model_exc.PSFi
        kernel = _disk_kernel(pixel_pinhole_radius)
        blurred = np.array([fftconvolve(plane, kernel, mode="same") for plane in self.model.PSFi])
        return blurred * self.model_exc.PSFi
'''))

ref("sim", "C22 C23",
    (MI, '''            for theta in (-alpha, alpha):
                exc_pattern += np.exp(1j * ((rr * np.sin(theta) + zz * np.cos(theta)) * freq))
''', '''            exc_pattern = exc_pattern + 2 * np.cos(rr * np.sin(alpha) * freq) * np.exp(1j * zz * np.cos(alpha) * freq)
            base_pattern = exc_pattern if self.coherent else base_pattern
'''),
    (MI, '''            base_pattern = np.exp(1j * zz * freq) * np.ones(psf.shape[1:], dtype=complex)[None]
        else:
            base_pattern = np.zeros(psf.shape, dtype=complex)
''', '''            base_pattern = np.broadcast_to(np.exp(1j * zz * freq), psf.shape).copy()
        else:
            base_pattern = np.zeros_like(psf, dtype=complex)
'''))

ref("apotome", "C27",
    (MI, '''        rotf = np.array([radial_profile(o)[0] for o in hybrid_otf])
        rotf /= rotf.max()
        rotf = abs(rotf)
''', '''        rotf = abs(np.stack([radial_profile(o)[0] for o in hybrid_otf]))
        rotf = rotf / rotf.max()
'''),
    (MI, '''        nyquist_sampling = self.psf_params["wl"] / self.psf_params["na"] / 4
        abbe_limit = int(
            np.rint(self.psf_params["size"] * self.psf_params["res"] / nyquist_sampling / 2)
        )
''', '''        p = self.psf_params
        abbe_limit = int(round(2 * p["na"] * p["size"] * p["res"] / p["wl"]))
'''))

ref("display", "C24 C28",
    (DI, '''    if mip:
        grid[3].imshow(psf.max(0), **dkwargs, extent=(*kx, *ky))
        grid[2].imshow(psf.max(2).T, **dkwargs, extent=(*kz, *ky))
        grid[1].imshow(psf.max(1), **dkwargs, extent=(*kx, *kz))
    else:
        grid[3].imshow(psf[nz // 2, :, :], **dkwargs, extent=(*kx, *ky))
        grid[2].imshow(psf[:, :, nx // 2].T, **dkwargs, extent=(*kz, *ky))
        grid[1].imshow(psf[:, ny // 2, :], **dkwargs, extent=(*kx, *kz))
''', '''    if mip:
        xy, yz, xz = (np.max(psf, axis=i) for i in (0, 2, 1))
    else:
        xy, yz, xz = (np.take(psf, psf.shape[i] // 2, axis=i) for i in (0, 2, 1))
    for ax, img, (h, v) in ((grid[3], xy, (kx, ky)), (grid[2], np.transpose(yz), (kz, ky)), (grid[1], xz, (kx, kz))):
        ax.imshow(img, extent=[h[0], h[1], v[0], v[1]], **dkwargs)
'''))

ref("plots", "C28",
    (OTF, '''        otf = abs(self.OTFi)
        otf = np.fmax(otf / otf.max(), np.finfo(float).eps)
''', '''        otf = np.abs(self.OTFi)
        otf /= otf.max()
        otf = np.maximum(otf, np.finfo(float).eps)
'''),
    (OTF, '''        max_loc = np.unravel_index(self.PSFi.argmax(), self.PSFi.shape)
        crop = slice_maker(max_loc,''', '''        max_loc = np.argwhere(self.PSFi == self.PSFi.max())[0]
        crop = slice_maker(max_loc,'''))

ref("labview", "C26",
    (LV, '''    pr_result = retrieve_phase(data_prepped, params, max_iters, pupil_tol, mse_tol, phase_only)
''', '''    settings = dict(max_iters=max_iters, pupil_tol=pupil_tol, mse_tol=mse_tol, phase_only=phase_only)
    pr_result = retrieve_phase(data=data_prepped, params=params, **settings)
'''))


def apply(tree, edits):
    for fn, old, new in edits:
        p = os.path.join(tree, fn)
        s = open(p).read()
        assert s.count(old) == 1, (fn, s.count(old), old)
        open(p, "w").write(s.replace(old, new))


if __name__ == "__main__":
    args = sys.argv[1:]
    jobs = "8"
    if args[:1] == ["-j"]:
        jobs, args = args[1], args[2:]
    tests_only = "-t" in args
    args = [a for a in args if a != "-t"]
    for rid, props, edits in R:
        if any(not a.startswith("C") for a in args) and rid not in args:
            continue
        work = tempfile.mkdtemp(prefix="rf-")
        try:
            tree = os.path.join(work, "repo")
            shutil.copytree("/repo", tree, symlinks=True)
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=tree, check=True)
            apply(tree, edits)
            if tests_only:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--doctest-modules", "pyotf/", "tests/"],
                                   cwd=tree, env=dict(os.environ, MPLBACKEND="Agg", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1"), capture_output=True, text=True)
                print(rid, "tests", r.returncode, r.stdout[-300:] if r.returncode else "", flush=True)
                continue
            for p in props:
                if any(a.startswith("C") for a in args) and p not in args:
                    continue
                t = time.time()
                r = subprocess.run(["./run.py", p, "--tier", "quick", "-j", jobs], cwd=ROOT, env=dict(os.environ, PYOTF_REPO=tree),
                                   capture_output=True, text=True)
                lines = r.stdout.splitlines()
                inc = [x for x in lines if x.startswith("INCONCLUSIVE")]
                s = [x for x in lines if x.startswith("property=")]
                print("%-16s %s exit %d %4.0f s inconclusive %d %s" % (rid, p, r.returncode, time.time() - t, len(inc), " ".join(s)), flush=True)
                for x in (inc[:2] if not r.returncode else lines[-4:] + r.stderr.splitlines()[-2:]):
                    print("      ", x[:300], flush=True)
        finally:
            shutil.rmtree(work)
