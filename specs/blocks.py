# Specification functions: for every block type the values the eventio format
# assigns to the payload bytes.  `r` reads little-endian values in storage order,
# `h` is the header (id, version, content_size), X are array constructors.
# The same text is executed natively (oracle), with a generating reader (inputs)
# and symbolically (postconditions of the parse() contracts).
# r.need(c): precondition (the block is well formed); r.supported(c): otherwise the
# block has to be refused with NotImplementedError; r.refuse(c, E): with E.

BLOCKS = {}


def block(path, prop, versions, ids=None, etype=None, always=()):
    def deco(f):
        BLOCKS[path] = dict(path=path, prop=prop, versions=versions, ids=ids, fn=f, name=path.split(':')[1])
        return f
    return deco


SO = 'eventio.simtel.objects:'
IO = 'eventio.iact.objects:'
RANDOM_ID = None


# ------------------------------------------------------------------ C10
@block(SO + 'RunHeader', 'C10', (0, 1, 2))
def run_header(r, h):
    r.supported(h.version <= 2)
    d = {}
    d['run'] = r.i32()
    d['time'] = r.i32()
    d['run_type'] = r.i32()
    d['tracking_mode'] = r.i32()
    if h.version >= 2:
        d['reverse_flag'] = r.i32()
    d['direction'] = r.arr('f4', 2)
    d['offset_fov'] = r.arr('f4', 2)
    d['conv_depth'] = r.f32()
    if h.version >= 1:
        d['conv_ref_pos'] = r.arr('f4', 2)
    n = r.count('i4')
    d['n_telescopes'] = n
    d['tel_id'] = r.arr('i2', n)
    d['tel_pos'] = r.arr2('f4', n, 3)
    d['min_tel_trig'] = r.i32()
    d['duration'] = r.i32()
    d['target'] = r.string()
    d['observer'] = r.string()
    return d


@block(SO + 'MCRunHeader', 'C10', (4,))
def mc_run_header(r, h):
    r.supported(h.version == 4)
    d = {}
    for k in ('shower_prog_id', 'shower_prog_vers', 'shower_prog_start',
              'detector_prog_id', 'detector_prog_vers', 'detector_prog_start'):
        d[k] = r.i32()
    d['obsheight'] = r.f32()
    d['n_showers'] = r.i32()
    d['n_use'] = r.i32()
    d['core_pos_mode'] = r.i32()
    d['core_range'] = r.arr('f4', 2)
    d['alt_range'] = r.arr('f4', 2)
    d['az_range'] = r.arr('f4', 2)
    d['diffuse'] = r.i32()
    d['viewcone'] = r.arr('f4', 2)
    d['E_range'] = r.arr('f4', 2)
    for k in ('spectral_index', 'B_total', 'B_inclination', 'B_declination', 'injection_height'):
        d[k] = r.f32()
    for k in ('atmosphere', 'corsika_iact_options', 'corsika_low_E_model', 'corsika_high_E_model'):
        d[k] = r.i32()
    for k in ('corsika_bunchsize', 'corsika_wlen_min', 'corsika_wlen_max'):
        d[k] = r.f32()
    for k in ('corsika_low_E_detail', 'corsika_high_E_detail'):
        d[k] = r.i32()
    return d


@block(SO + 'CameraSettings', 'C10', (0, 1, 2, 3, 4, 5, 6))
def camera_settings(r, h):
    v = h.version
    r.supported(v <= 6)
    n = r.count('i4')
    d = {'n_pixels': n, 'telescope_id': h.id}
    d['focal_length'] = r.f32()
    if v >= 5:
        d['effective_focal_length'] = r.f32()
    if v >= 6:
        d['effective_focal_length_x'] = r.f32()
        d['effective_focal_length_y'] = r.f32()
        d['effective_focal_length_dx'] = r.f32()
        d['effective_focal_length_dy'] = r.f32()
    d['pixel_x'] = r.arr('f4', n)
    d['pixel_y'] = r.arr('f4', n)
    if v >= 4:
        curved = r.varint(g=(0, 1, -1))
        parallel = r.varint(g=(0, 1, -1))
        d['curved_surface'] = curved
        d['pixels_parallel'] = parallel
        if curved != 0:
            d['pixel_z'] = r.arr('f4', n)
        else:
            d['pixel_z'] = X.full('f4', (n,), 0.0)
        if parallel == 0:
            d['nxpix'] = r.arr('f4', n)
            d['nypix'] = r.arr('f4', n)
        else:
            d['nxpix'] = X.full('f4', (n,), 0.0)
            d['nypix'] = X.full('f4', (n,), 0.0)
        common = r.varint(g=(0, 1, -1))
        d['common_pixel_shape'] = common
        if common == 0:
            d['pixel_shape'] = X.anydt(r.varints(n))
            d['pixel_area'] = r.arr('f4', n)
            d['pixel_size'] = r.arr('f4', n)
        else:
            shape = r.varint(g=(0, 1, 2, 3, -1))
            area = r.f32()
            size = r.f32()
            d['pixel_shape'] = X.anydt(X.full('i8', (n,), shape))
            d['pixel_area'] = X.anydt(X.full('f8', (n,), area))
            d['pixel_size'] = X.anydt(X.full('f8', (n,), size))
    else:
        d['curved_surface'] = 0
        d['pixels_parallel'] = 1
        d['common_pixel_shape'] = 0
        d['pixel_z'] = X.full('f4', (n,), 0.0)
        d['nxpix'] = X.full('f4', (n,), 0.0)
        d['nypix'] = X.full('f4', (n,), 0.0)
        d['pixel_shape'] = X.anydt(X.full('f4', (n,), -1.0))
        d['pixel_area'] = r.arr('f4', n)
        if v >= 1:
            d['pixel_size'] = r.arr('f4', n)
        else:
            d['pixel_size'] = X.full('f4', (n,), 0.0)
    if v >= 2:
        d['n_mirrors'] = r.i32()
        d['mirror_area'] = r.f32()
    else:
        d['n_mirrors'] = 0
        d['mirror_area'] = 0.0
    if v >= 3:
        d['cam_rot'] = r.f32()
    else:
        d['cam_rot'] = 0.0
    return d


def sector_table(r, d, n):
    s = r.table((('type', 'u1'), ('threshold', 'f4'), ('pixel_threshold', 'f4')), n)
    d['sector_type'] = s['type']
    d['sector_threshold'] = s['threshold']
    d['sector_pixel_threshold'] = s['pixel_threshold']


def sectors_v1(r, n_pixels):
    out = []
    for i in range(n_pixels):
        n = r.count('i2')
        out.append(r.arr('i2', n))
    return out


def sectors_v2(r, n_pixels):
    out = []
    for i in range(n_pixels):
        n = r.vcount()
        out.append(r.varints(n))
    return out


@block(SO + 'CameraOrganization', 'C10', (1, 2))
def camera_organization(r, h):
    r.supported(h.version == 1 or h.version == 2)
    d = {'telescope_id': h.id}
    n = r.count('i4')
    d['n_pixels'] = n
    d['n_drawers'] = r.i32()
    g = r.count('i4')
    d['n_gains'] = g
    ns = r.count('i4')
    d['n_sectors'] = ns
    if h.version == 1:
        d['drawer'] = r.arr('i2', n)
        d['card'] = r.arr2('i2', n, g)
        d['chip'] = r.arr2('i2', n, g)
        d['channel'] = r.arr2('i2', n, g)
        d['sectors'] = sectors_v1(r, n)
    else:
        d['drawer'] = r.varints(n)
        d['card'] = r.varints2(n, g)
        d['chip'] = r.varints2(n, g)
        d['channel'] = r.varints2(n, g)
        d['sectors'] = sectors_v2(r, n)
    sector_table(r, d, ns)
    return d


@block(SO + 'PixelSettings', 'C10', (0, 1, 2, 3))
def pixel_settings(r, h):
    v = h.version
    r.supported(v <= 3)
    d = {}
    d['setup_id'] = r.i32()
    d['trigger_mode'] = r.i32()
    d['min_pixel_mult'] = r.i32()
    n = r.count('i4')
    d['n_pixels'] = n
    d['pixel_HV_DAC'] = r.arr('i4', n)
    nd = r.count('i4')
    d['threshold_DAC'] = r.arr('i4', nd)
    d['n_drawers'] = r.i32()
    d['ADC_start'] = r.arr('i2', nd)
    d['ADC_count'] = r.arr('i2', nd)
    if v >= 1:
        d['time_slice'] = r.f32()
        d['sum_bins'] = r.i32()
    if v >= 2:
        a = r.vcount()
        b = r.vcount()
        d['ref_step'] = r.f32()
        d['ref_shape'] = r.arr2('f2', a, b)
    d['telescope_id'] = h.id
    if v >= 3:
        d['sum_offset'] = r.i32()
    else:
        d['sum_offset'] = None
    return d


@block(SO + 'DisabledPixels', 'C10', (0,))
def disabled_pixels(r, h):
    r.supported(h.version == 0)
    d = {'telescope_id': h.id}
    n = r.count('i4')
    d['n_trig_disabled'] = n
    d['trigger_disabled'] = r.arr('i4', n)
    m = r.count('i4')
    d['n_HV_disabled'] = m
    d['HV_disabled'] = r.arr('i4', m)
    return d


@block(SO + 'CameraSoftwareSettings', 'C10', (0,))
def camera_software_settings(r, h):
    r.supported(h.version == 0)
    d = {'telescope_id': h.id}
    for k in ('dyn_trig_mode', 'dyn_trig_threshold', 'dyn_HV_mode', 'dyn_HV_threshold',
              'data_red_mode', 'zero_sup_mode'):
        d[k] = r.i32()
    n = r.count('i4')
    d['zero_sup_n_thr'] = n
    d['zero_sup_thresholds'] = r.arr('i4', n)
    for k in ('unbiased_scale', 'dyn_ped_mode', 'dyn_ped_events', 'dyn_ped_period',
              'monitor_cur_period', 'report_cur_period', 'monitor_HV_period', 'report_HV_period'):
        d[k] = r.i32()
    return d


@block(SO + 'PointingCorrection', 'C10', (0,))
def pointing_correction(r, h):
    r.supported(h.version == 0)
    d = {'telescope_id': h.id}
    d['function_type'] = r.i32()
    n = r.count('i4')
    d['n_param'] = n
    d['pointing_param'] = r.arr('f4', n)
    return d


@block(SO + 'DriveSettings', 'C10', (0,))
def drive_settings(r, h):
    r.supported(h.version == 0)
    d = {}
    d['drive_type_az'] = r.i16()
    d['drive_type_alt'] = r.i16()
    for k in ('zeropoint_az', 'zeropoint_alt', 'sign_az', 'sign_alt', 'resolution_az', 'resolution_alt',
              'range_low_az', 'range_low_alt', 'range_high_az', 'range_high_alt', 'park_pos_az', 'park_pos_alt'):
        d[k] = r.f32()
    return d


# ------------------------------------------------------------------ C11
@block(SO + 'TriggerInformation', 'C11', (0, 1, 2, 3))
def trigger_information(r, h):
    v = h.version
    r.supported(v <= 3)
    d = {}
    d['cpu_time'] = r.time()
    d['gps_time'] = r.time()
    d['trigger_pattern'] = r.i32()
    d['data_pattern'] = r.i32()
    if v >= 1:
        n = r.count('i2')
        d['n_triggered_telescopes'] = n
        tels = r.arr('i2', n)
        d['triggered_telescopes'] = tels
        d['trigger_times'] = r.arr('f4', n)
        m = r.count('i2')
        d['n_telescopes_with_data'] = m
        d['telescopes_with_data'] = r.arr('i2', m)
        if v >= 2:
            masks = r.uvarints(n, 32, g=(0, 1, 2, 3, 5, 7, 15, 0x10, 0x20, 0x40, 0x70, 0x33, 0x100, 0x7ff, 0xffffffff))
            d['teltrg_type_mask'] = X.lam('u8', (n,), lambda i: fixed_mask(masks[i]))
            times = {}
            for i in range(n):
                mask = masks[i]
                if bit(mask, 0) + bit(mask, 1) + bit(mask, 2) + bit(mask, 3) > 1:
                    e = {}
                    for k in range(4):
                        if bit(mask, k) == 1:
                            e[k] = r.f32()
                    times[tels[i]] = e
            d['teltrg_time_by_type'] = times
        if v >= 3:
            d['plane_wavefront_compensation'] = {'az': r.f32(), 'alt': r.f32(), 'speed_of_light': r.f32()}
    return d


def bit(x, k):
    return (x >> k) & 1


def fixed_mask(m):
    # bits 4..6 are moved to (or-ed into) bits 8..10
    out = m % 16
    for k in (7, 11, 12, 13, 14, 15):
        out = out + (bit(m, k) << k)
    for k in (8, 9, 10):
        out = out + ((bit(m, k) | bit(m, k - 4)) << k)
    return out + ((m >> 16) << 16)


@block(SO + 'TrackingPosition', 'C11', (0,), ids='tracking')
def tracking_position(r, h):
    r.supported(h.version == 0)
    r.need(h.type >= 2100)
    d = {}
    raw = bit(h.id, 8)
    cor = bit(h.id, 9)
    r.need(raw + cor > 0)
    if raw == 1:
        d['azimuth_raw'] = r.f32()
        d['altitude_raw'] = r.f32()
    if cor == 1:
        d['azimuth_cor'] = r.f32()
        d['altitude_cor'] = r.f32()
    d['telescope_id'] = h.tel
    return d


@block(SO + 'TelescopeEventHeader', 'C11', (0, 1, 2, 3, 4))
def telescope_event_header(r, h):
    v = h.version
    r.supported(v <= 4)
    d = {'telescope_id': h.id}
    d['loc_count'] = r.i32()
    d['glob_count'] = r.i32()
    d['cpu_time'] = r.time()
    d['gps_time'] = r.time()
    t = r.i16(g=(0, 1, 0x102, 0x203, 0x301, 0x500, 0x700, 0x742, -1, 0x400))
    d['trg_source'] = t % 256
    if bit(t, 8) == 1:
        if v <= 1:
            n = r.count('i2')
            d['list_trgsect'] = r.arr('i2', n)
        else:
            n = r.vcount()
            d['list_trgsect'] = r.varints(n)
        if v >= 1:
            if bit(t, 10) == 1:
                d['time_trgsect'] = r.arr('f4', n)
    if bit(t, 9) == 1:
        if v <= 1:
            m = r.count('i2')
            d['n_phys_addr'] = m
            d['phys_addr'] = r.arr('i2', m)
        else:
            m = r.vcount()
            d['n_phys_addr'] = m
            d['phys_addr'] = r.varints(m)
    if v >= 3:
        d['readout_time'] = r.f32()
        d['relative_trigger_time'] = r.f32()
    if v >= 4:
        d['start_readout'] = r.i32()
    return d


def image_telid(i):
    return i % 256 + ((i >> 24) % 64) * 256


@block(SO + 'ImageParameters', 'C11', (5, 6))
def image_parameters(r, h):
    v = h.version
    r.supported(v == 5 or v == 6)
    f = h.id
    d = {}
    d['flags'] = f
    d['flags_hex'] = X.hexstr(f)
    d['telescope_id'] = image_telid(f)
    d['cut_id'] = (f >> 12) % 256
    if v == 6:
        d['pixels'] = r.varint()
        nsat = r.varint(g=(0, 1, 5, -1))
    else:
        d['pixels'] = r.i16()
        nsat = r.i16(g=(0, 1, 5, -1))
    d['n_sat'] = nsat
    if nsat > 0:
        d['clip_amp'] = r.f32()
    for k in ('amplitude', 'x', 'y', 'phi', 'l', 'w'):
        d[k] = r.f32()
    d['n_conc'] = r.i16()
    d['concentration'] = r.f32()
    if bit(f, 8) == 1:
        for k in ('x_err', 'y_err', 'phi_err', 'l_err', 'w_err'):
            d[k] = r.f32()
    if bit(f, 9) == 1:
        for k in ('skewness', 'skewness_err', 'kurtosis', 'kurtosis_err'):
            d[k] = r.f32()
    if bit(f, 10) == 1:
        if v == 6:
            n = r.vcount()
        else:
            n = r.count('i2')
        d['n_hot'] = n
        d['hot_amp'] = r.arr('f4', n)
        if v == 6:
            d['hot_pixel'] = r.varints(n)
        else:
            d['hot_pixel'] = r.arr('i2', n)
    if bit(f, 11) == 1:
        for k in ('tm_slope', 'tm_residual', 'tm_width1', 'tm_width2', 'tm_rise'):
            d[k] = r.f32()
    return d


@block(SO + 'StereoReconstruction', 'C11', (1,))
def stereo_reconstruction(r, h):
    r.supported(h.version == 1)
    d = {'result_bits': h.id}
    d['n_trg'] = r.i16()
    d['n_read'] = r.i16()
    d['n_img'] = r.i16()
    d['img_pattern'] = r.i32()
    for k, names in ((0, ('Az', 'Alt')), (1, ('err_dir1', 'err_dir2', 'err_dir3')), (2, ('xc', 'yc')),
                     (3, ('err_core1', 'err_core2', 'err_core3')), (4, ('mscl', 'mscw')),
                     (5, ('err_mscl', 'err_mscw')), (6, ('energy',)), (7, ('err_energy',)),
                     (8, ('xmax',)), (9, ('err_xmax',))):
        if bit(h.id, k) == 1:
            for nm in names:
                d[nm] = r.f32()
    return d


@block(SO + 'PixelTiming', 'C11', (1, 2))
def pixel_timing(r, h):
    v = h.version
    r.supported(v == 1 or v == 2)
    d = {}
    if v == 1:
        n_pixels = r.count('i2')
    else:
        n_pixels = r.vcount()
    r.need(n_pixels < 2 ** 31)
    n_gains = r.count('i2')
    before = r.i16(g=(-1, 0, 3))
    after = r.i16(g=(-1, 0, 3))
    with_sum = before >= 0 and after >= 0
    list_type = r.i16(g=(1, 2))
    r.need(list_type == 1 or list_type == 2)
    if v == 1:
        size = r.count('i2')
    else:
        size = r.vcount()
    if list_type == 1:
        if v == 1:
            pixels = X.cast('i4', r.arr('i2', size, g=range(0, max(X.small(n_pixels), 1))))
        else:
            pixels = X.cast('i4', r.varints(size, g=range(0, max(X.small(n_pixels), 1))))
    else:
        if v == 1:
            pixels = X.cast('i4', r.arr2('i2', size, 2, g=range(0, max(X.small(n_pixels), 1))))
        else:
            pixels = X.cast('i4', r.varints2(size, 2, g=range(0, max(X.small(n_pixels), 1))))
    thr = r.i16(g=(-1, 0, 3))
    selected = thr < 0
    n_types = r.count('i2')
    d['n_pixels'] = n_pixels
    d['n_gains'] = n_gains
    d['before_peak'] = before
    d['after_peak'] = after
    d['with_sum'] = with_sum
    d['list_type'] = list_type
    d['pixel_list'] = pixels
    d['threshold'] = thr
    d['glob_only_selected'] = selected
    d['n_types'] = n_types
    d['time_type'] = r.arr('i2', n_types)
    d['time_level'] = r.arr('f4', n_types)
    gran = r.f32()
    d['granularity'] = gran
    d['peak_global'] = r.f32()
    d['time'], d['pulse_sum_loc'], d['pulse_sum_glob'] = pixel_timing_lists(
        r, list_type, pixels, size, n_pixels, n_gains, n_types, with_sum, selected, gran)
    return d


def pixel_timing_lists(r, list_type, pixels, size, n_pixels, n_gains, n_types, with_sum, selected, gran):
    time = X.full('f4', (n_pixels, n_types), float('nan'))
    loc = X.full('i4', (n_gains, n_pixels), 0)
    glob = X.full('i4', (n_gains, n_pixels), 0)
    for i in range(size):
        if list_type == 1:
            first = pixels[i]
            last = pixels[i]
        else:
            first = pixels[i, 0]
            last = pixels[i, 1]
        r.need(0 <= first)
        r.need(last < n_pixels)
        for p in range(first, last + 1):
            for k in range(n_types):
                time[p, k] = X.fmul32(gran, X.i2f32(r.i16()))
            if with_sum:
                for g in range(n_gains):
                    loc[g, p] = X.c32(r.varint(g=32))
                if selected:
                    for g in range(n_gains):
                        glob[g, p] = X.c32(r.varint(g=32))
    if with_sum and size > 0 and not selected:
        for g in range(n_gains):
            for p in range(n_pixels):
                glob[g, p] = X.c32(r.varint(g=32))
    return time, loc, glob


@block(SO + 'PixelList', 'C11', (0, 1))
def pixel_list(r, h):
    r.supported(h.version <= 1)
    r.need(h.id >= 0)
    d = {'code': h.id // 1000000, 'telescope_id': h.id % 1000000}
    if h.version == 0:
        n = r.count('i2')
        d['pixels'] = n
        d['pixel_list'] = r.arr('i2', n)
    else:
        n = r.vcount()
        d['pixels'] = n
        d['pixel_list'] = r.varints(n)
    return d


@block(SO + 'AuxiliaryDigitalTraces', 'C11', (0, 1))
def aux_digital(r, h):
    d = {}
    d['tel_id'] = r.i32()
    d['time_scale'] = r.f32()
    n = r.uvcount()
    m = r.uvcount()
    d['trace_data'] = r.diff(n, m)
    return d


@block(SO + 'AuxiliaryAnalogTraces', 'C11', (0, 1))
def aux_analog(r, h):
    d = {}
    d['tel_id'] = r.i32()
    d['time_scale'] = r.f32()
    n = r.uvcount()
    m = r.uvcount()
    d['trace_data'] = r.arr2('f4', n, m)
    return d


@block(SO + 'PixelTriggerTimes', 'C11', (0,))
def pixel_trigger_times(r, h):
    r.supported(h.version == 0)
    d = {}
    d['time_step'] = r.f32()
    n = r.vcount()
    d['n_times'] = n
    d['pixel_ids'] = r.varints(n)
    d['trigger_times'] = r.varints(n)
    return d


# ------------------------------------------------------------------ C12
@block(SO + 'ADCSums', 'C12', (3,), ids='adc')
def adc_sums(r, h):
    r.supported(h.version == 3)
    zero = h.id % 32
    red = (h.id >> 5) % 32
    r.supported(red == 0 and zero <= 2)
    n = r.count('i4', big=40)
    g = r.count('i2', cap=2)
    if zero == 0:
        return X.squeeze_last(r.diff(g, n))
    r.need(1 <= g and g <= 2)
    out = X.full('f8', (g, n), 0)
    if zero == 1:
        for b in range((n + 15) // 16):
            bits = r.i16()
            m = 0
            for k in range(16):
                m = m + bit(bits, k)
            if g == 2:
                lo = r.diff(1, m)
            hi = r.diff(1, m)
            q = 0
            for k in range(16):
                if 16 * b + k < n and bit(bits, k) == 1:
                    if g == 2:
                        out[1, 16 * b + k] = lo[0, q]
                    out[0, 16 * b + k] = hi[0, q]
                    q = q + 1
    else:
        size = r.count('i2')
        items = r.arr('u2', size, g=X.adc_items(n))
        nlo = 0
        n16 = 0
        n8 = 0
        for i in range(size):
            if bit(items[i], 14) == 1:
                r.need(g < 2 or bit(items[i], 13) == 1)
                n8 = n8 + 1
            else:
                n16 = n16 + 1
                if g == 2 and bit(items[i], 13) == 0:
                    nlo = nlo + 1
        if g == 2:
            lo = r.diff(1, nlo)
        hi = r.diff(1, n16)
        hi8 = r.arr('u1', n8)
        a = 0
        b = 0
        c = 0
        for i in range(size):
            p = items[i] % 8192
            r.need(p < n)
            if bit(items[i], 14) == 1:
                out[0, p] = hi8[c]
                c = c + 1
            else:
                out[0, p] = hi[0, b]
                b = b + 1
            if g == 2 and bit(items[i], 13) == 0:
                out[1, p] = lo[0, a]
                a = a + 1
    return X.squeeze_last(out)


@block(SO + 'ADCSamples', 'C12', (3,), ids='adc')
def adc_samples(r, h):
    r.supported(h.version == 3)
    zero = h.id % 32
    r.supported((h.id >> 5) % 32 == 0 and bit(h.id, 10) == 0)
    n = r.count('i4')
    g = r.count('i2')
    s = r.count('i2')
    if zero == 0:
        return X.squeeze_last(X.cast('u2', X.reshape3(r.diff(g * n, s), g, n, s)))
    size = r.vcount()
    first = []
    last = []
    total = 0
    for i in range(size):
        a = r.varint(g=range(-X.small(n), X.small(n)))
        if a < 0:
            first.append(-a - 1)
            last.append(-a)
            total = total + 1
            r.need(-a <= n)
        else:
            b = r.varint(g=range(a, X.small(n)))
            r.need(a <= b + 1)
            r.need(b < n)
            first.append(a)
            last.append(b + 1)
            total = total + (b + 1 - a)
    data = r.diff(g * total, s)
    data = X.cast('u2', X.reshape3(data, g, total, s))
    out = X.full('u2', (g, n, s), 0)
    for k in range(g):
        q = 0
        for i in range(size):
            for p in range(first[i], last[i]):
                out[k, p, :] = data[k, q]
                q = q + 1
    return X.squeeze_last(out)


# ------------------------------------------------------------------ C13
@block(SO + 'MCShower', 'C13', (0, 1, 2))
def mc_shower(r, h):
    v = h.version
    r.supported(v <= 2)
    d = {'shower': h.id}
    d['primary_id'] = r.i32()
    d['energy'] = r.f32()
    d['azimuth'] = r.f32()
    d['altitude'] = r.f32()
    if v >= 1:
        d['depth_start'] = r.f32()
    d['h_first_int'] = r.f32()
    d['xmax'] = r.f32()
    if v >= 1:
        d['hmax'] = r.f32()
        d['emax'] = r.f32()
        d['cmax'] = r.f32()
    else:
        d['hmax'] = 0.0
        d['emax'] = 0.0
        d['cmax'] = 0.0
    n = r.count('i2')
    d['n_profiles'] = n
    ps = []
    for i in range(n):
        p = {}
        p['id'] = r.i32()
        k = r.count('i4')
        p['n_steps'] = k
        p['start'] = r.f32()
        p['end'] = r.f32()
        p['content'] = r.arr('f4', k)
        ps.append(p)
    d['profiles'] = ps
    if v >= 2:
        sub = r.subobject(1215)
        d['mc_extra_params'] = mc_extra_params(sub, None)
    return d


@block(SO + 'MCExtraParams', 'C13', (0, 1))
def mc_extra_params(r, h):
    d = {}
    d['weight'] = r.f32()
    ni = r.uvcount()
    nf = r.uvcount()
    d['n_iparam'] = ni
    d['n_fparam'] = nf
    if ni > 0:
        d['iparam'] = r.arr('i4', ni)
    if nf > 0:
        d['fparam'] = r.arr('f4', nf)
    return d


@block(SO + 'MCEvent', 'C13', (0, 1, 2))
def mc_event(r, h):
    r.supported(h.version <= 2)
    d = {'event_id': h.id}
    d['shower_num'] = r.i32()
    d['xcore'] = r.f32()
    d['ycore'] = r.f32()
    if h.version >= 2:
        d['aweight'] = r.f32()
    else:
        d['aweight'] = 1.0
    return d


@block(SO + 'CameraMonitoring', 'C13', (0, 1))
def camera_monitoring(r, h):
    r.supported(h.version <= 1)
    d = {}
    d['telescope_id'] = image_telid(h.id)
    what = (h.id >> 8) % 65536
    d['what'] = what
    d['known'] = r.i16()
    d['new_parts'] = r.i16()
    d['monitor_id'] = r.i32()
    d['moni_time'] = r.time()
    if h.version == 0:
        ns = r.count('i2')
        np = r.count('i2')
        nd = r.count('i2')
        ng = r.count('i2')
    else:
        ns = r.vcount()
        np = r.vcount()
        nd = r.vcount()
        ng = r.vcount()
    d['n_sectors'] = ns
    d['n_pixels'] = np
    d['n_drawers'] = nd
    d['n_gains'] = ng
    r.need(bit(what, 7) == 0)
    if bit(what, 0) == 1:
        d['status_time'] = r.time()
        d['status_bits'] = r.i32()
    if bit(what, 1) == 1:
        d['trig_time'] = r.time()
        d['coinc_count'] = r.i32()
        d['event_count'] = r.i32()
        d['trigger_rate'] = r.f32()
        d['sector_rate'] = r.arr('f4', ns)
        d['event_rate'] = r.f32()
        d['data_rate'] = r.f32()
        d['mean_significant'] = r.f32()
    if bit(what, 2) == 1:
        d['ped_noise_time'] = r.time()
        d['n_ped_slices'] = r.i16()
        d['pedestal'] = r.arr2('f4', ng, np)
        d['noise'] = r.arr2('f4', ng, np)
    if bit(what, 3) == 1:
        d['hv_temp_time'] = r.time()
        ndt = r.count('i2')
        nct = r.count('i2')
        d['n_drawer_temp'] = ndt
        d['n_camera_temp'] = nct
        d['hv_v_mon'] = r.arr('i2', np)
        d['hv_i_mon'] = r.arr('i2', np)
        d['hv_stat'] = r.arr('u1', np)
        d['drawer_temp'] = r.arr2('i2', nd, ndt)
        d['camera_temp'] = r.arr('i2', nct)
    if bit(what, 4) == 1:
        d['dc_rate_time'] = r.time()
        d['current'] = r.arr('u2', np)
        d['scaler'] = r.arr('u2', np)
    if bit(what, 5) == 1:
        d['hv_thr_time'] = r.time()
        d['hv_dac'] = r.arr('u2', np)
        d['thresh_dac'] = r.arr('u2', nd)
        d['hv_set'] = r.arr('u1', np)
        d['trig_set'] = r.arr('u1', np)
    if bit(what, 6) == 1:
        d['set_daq_time'] = r.time()
        d['daq_conf'] = r.i16()
        d['daq_scaler_win'] = r.i16()
        d['daq_nd'] = r.i16()
        d['daq_acc'] = r.i16()
        d['daq_nl'] = r.i16()
    return d


@block(SO + 'LaserCalibration', 'C13', (0, 1, 2, 3))
def laser_calibration(r, h):
    v = h.version
    r.supported(v <= 3)
    d = {'telescope_id': h.id}
    n = r.count('u2')
    g = r.count('i2')
    d['lascal_id'] = r.i32()
    d['calib'] = r.arr2('f4', g, n)
    if v >= 1:
        t = r.arr2('f4', g, 2)
        d['max_int_frac'] = X.lam('f4', (g,), lambda i: t[i, 0])
        d['max_pixtm_frac'] = X.lam('f4', (g,), lambda i: t[i, 1])
    if v >= 2:
        d['tm_calib'] = r.arr2('f4', g, n)
    if v >= 3:
        d['flat_fielding'] = r.arr2('f4', g, n)
    return d


@block(SO + 'MCPhotoelectronSum', 'C13', (0, 1, 2))
def mc_pe_sum(r, h):
    v = h.version
    r.supported(v <= 2)
    d = {'event': h.id}
    d['shower_num'] = r.i32()
    n = r.count('i4')
    d['n_tel'] = n
    d['n_pe'] = r.arr('i4', n)
    npix = r.arr('i4', n, g=(0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1))
    r.supported(X.all_zero(npix))
    if v >= 1:
        d['photons'] = r.arr('f4', n)
        d['photons_atm'] = r.arr('f4', n)
        d['photons_atm_3_6'] = r.arr('f4', n)
        d['photons_atm_qe'] = r.arr('f4', n)
    if v >= 2:
        d['photons_atm_400'] = r.arr('f4', n)
    return d


@block(SO + 'PixelMonitoring', 'C13', (0,))
def pixel_monitoring(r, h):
    r.supported(h.version == 0)
    f = r.i32()
    n = r.count('i4')
    g = r.i16(g=(1, 2))
    d = {'flags': f, 'n_pixels': n, 'n_gains': g}
    for k, name in ((0, 'nsb_rate'), (1, 'qe_rel'), (2, 'gain_rel'), (3, 'hv_rel'), (4, 'current'),
                    (5, 'fadc_amp_hg')):
        if bit(f, k) == 1:
            d[name] = r.arr('f4', n)
    if bit(f, 6) == 1 and g > 1:
        d['fadc_amp_lg'] = r.arr('f4', n)
    if bit(f, 7) == 1:
        d['disabled'] = r.arr('b1', n, g=(0, 1))
    return d


@block(IO + 'PhotoElectrons', 'C13', (1, 2, 3))
def photo_electrons(r, h):
    v = h.version
    r.supported(v == 1 or v == 2 or v == 3)
    d = {}
    npe = r.deferred_count('i4', 'n_pe')
    n = r.count('i4')
    d['n_pe'] = npe
    d['n_pixels'] = n
    f = 0
    if v >= 2:
        f = r.i16(g=(0, 1, 4, 5, 2))
        r.need(f >= 0)
    ne = r.count('i4', cap=max(X.small(n), 1))
    d['non_empty'] = ne
    pe = X.full('i4', (n,), 0)
    pid = X.full('u4', (npe,), 0)
    time = X.full('f4', (npe,), 0)
    amp = X.full('f4', (npe,), 0)
    k = 0
    for i in range(ne):
        if v == 3:
            p = r.varint(g=range(X.small(n)))
        else:
            p = r.i16(g=range(X.small(n)))
        r.need(0 <= p and p < n)
        m = r.count('i4')
        pe[p] = m
        r.need_le(k + m, npe)
        for j in range(m):
            t = r.f32()
            pid[k + j] = p
            time[k + j] = t
        if bit(f, 0) == 1:
            for j in range(m):
                amp[k + j] = r.f32()
        k = k + m
    r.fill('n_pe', k)
    d['photoelectrons'] = pe
    d['pixel_id'] = pid
    d['time'] = time
    if bit(f, 0) == 1:
        d['amplitude'] = amp
    if bit(f, 2) == 1:
        photons = X.full('i4', (n,), 0)
        q = r.count('i4', cap=max(X.small(n), 1))
        for i in range(q):
            p = r.i16(g=range(X.small(n)))
            r.need(0 <= p and p < n)
            photons[p] = r.i32()
        d['photons'] = photons
    return d


# ------------------------------------------------------------------ C14
@block(IO + 'RunHeader', 'C14', (0,))
def iact_run_header(r, h):
    n = r.i32(g=(273, 273, 273, 272))
    r.refuse(n == 273, 'WrongSize')
    return X.ext('parse_run_header', r.rest(273 * 4))


@block(IO + 'TelescopeDefinition', 'C14', (0,))
def telescope_definition(r, h):
    n = r.count('i4', low=1)
    r.need(n > 0)
    x = r.arr('f4', n)
    y = r.arr('f4', n)
    z = r.arr('f4', n)
    rad = r.arr('f4', n)
    r.at_end()
    return X.record(('x', x), ('y', y), ('z', z), ('r', rad))


@block(IO + 'EventHeader', 'C14', (0,))
def iact_event_header(r, h):
    n = r.i32(g=(273, 273, 273, 272))
    r.refuse(n == 273, 'WrongSize')
    return X.ext('parse_event_header', r.rest(273 * 4))


@block(IO + 'ArrayOffsets', 'C14', (0, 1))
def array_offsets(r, h):
    r.supported(h.version <= 1)
    n = r.count('i4')
    t = r.f32()
    x = r.arr('f4', n)
    y = r.arr('f4', n)
    if h.version == 1:
        w = r.arr('f4', n)
        return (t, X.record(('x', x), ('y', y), ('weight', w)))
    return (t, X.record(('x', x), ('y', y)))


BUNCH = ('x', 'y', 'cx', 'cy', 'time', 'zem', 'photons', 'wavelength')
PARTICLE = ('x', 'y', 'cx', 'cy', 'time', 'momentum', 'weight', 'particle_id')
EMITTER = ('x', 'y', 'mass', 'charge', 'time', 'emission_time', 'energy', 'wavelength')


def bunch_table(r, compact, n):
    """columns of n photon bunches as float32, in storage order"""
    if compact:
        t = r.table(tuple([(c, 'i2') for c in BUNCH]), n, g={'wavelength': (9999, 300, 0, 350), 'cx': (-32768, 30000, 30001, 0, -30000, -12345, 32767)})
        return (
            X.lam('f4', (n,), lambda i: X.fmul32(X.i2f32(t['x'][i]), 0.1)),
            X.lam('f4', (n,), lambda i: X.fmul32(X.i2f32(t['y'][i]), 0.1)),
            X.lam('f4', (n,), lambda i: X.fclip32(X.fdiv32(X.i2f32(t['cx'][i]), 30000), -1.0, 1.0)),
            X.lam('f4', (n,), lambda i: X.fclip32(X.fdiv32(X.i2f32(t['cy'][i]), 30000), -1.0, 1.0)),
            X.lam('f4', (n,), lambda i: X.fmul32(X.i2f32(t['time'][i]), 0.1)),
            X.lam('f4', (n,), lambda i: X.fpow32(10.0, X.fmul32(X.i2f32(t['zem'][i]), 0.001))),
            X.lam('f4', (n,), lambda i: X.fmul32(X.i2f32(t['photons'][i]), 0.01)),
            X.lam('f4', (n,), lambda i: X.i2f32(t['wavelength'][i])),
        )
    t = r.table(tuple([(c, 'f4') for c in BUNCH]), n, g={'wavelength': (9999.0, 300.0, 0.0)})
    return tuple([t[c] for c in BUNCH])


def split_emitter(cols, n):
    isem = X.lam('b1', (n,), lambda i: X.feq(cols[7][i], 9999.0))
    if X.any_true(isem):
        return (X.select([(BUNCH[k], cols[k]) for k in range(8)], isem, False),
                X.select([(EMITTER[k], cols[k]) for k in range(8)], isem, True))
    return (X.record(*[(BUNCH[k], cols[k]) for k in range(8)]), None)


@block(IO + 'Photons', 'C14', (0, 1000, 1001), ids='photons')
def photons(r, h):
    r.i16()
    r.i16()
    r.f32()
    n = r.count('i4')
    cols = bunch_table(r, h.version // 1000 == 1, n)
    if h.id == 999999:
        return X.record(*[(PARTICLE[k], cols[k]) for k in range(8)])
    return split_emitter(cols, n)


@block(IO + 'EventEnd', 'C14', (0,))
def iact_event_end(r, h):
    n = r.i32(g=(273, 273, 273, 272))
    r.refuse(n == 273, 'WrongSize')
    return X.ext('parse_event_end', r.rest(273 * 4), 7.8)


@block(IO + 'RunEnd', 'C14', (0,))
def iact_run_end(r, h):
    n = r.i32(g=(3, 3, 3, 4))
    r.refuse(n == 3, 'WrongSize')
    data = r.bytes(12)
    r.at_end()
    return X.ext('parse_run_end', X.padded(data, 273 * 4))


@block(IO + 'Longitudinal', 'C14', (0,))
def longitudinal(r, h):
    d = {}
    d['event_id'] = r.i32()
    d['type'] = r.i32()
    n = r.count('i2')
    m = r.count('i2')
    d['np'] = n
    d['nthick'] = m
    d['thickstep'] = r.f32()
    d['data'] = r.arr2('f4', n, m)
    return d


@block(IO + 'InputCard', 'C14', (0,))
def input_card(r, h):
    n = r.count('i4')
    lines = []
    for i in range(n):
        lines.append(r.string())
    return X.joined(lines, b'\n')


@block(IO + 'AtmosphericProfile', 'C14', (0, 1))
def atmospheric_profile(r, h):
    r.supported(h.version <= 1)
    d = {'id': h.id}
    d['name'] = r.vstring()
    d['obslevel'] = r.f64()
    n = r.uvcount()
    t = r.arr2('f8', n, 4)
    for k, name in ((0, 'altitude_km'), (1, 'rho'), (2, 'thickness'), (3, 'refractive_index_minus_1')):
        d[name] = X.column(t, k, n)
    q = r.uvarint(g=(0, 5, 5, 4))
    if q == 5:
        d['htoa'] = r.f64()
        d['five_layer_atmosphere'] = r.arr2('f8', 5, 5)
    else:
        d['htoa'] = None
        d['five_layer_atmosphere'] = None
    return d


# ------------------------------------------------------------------ C15
REAL_KINDS = ('R', 'r', 'F', 'D')


@block('eventio.histograms:Histograms', 'C15', (1, 2))
def histograms(r, h):
    r.supported(h.version == 1 or h.version == 2)
    n = r.count('i2')
    out = []
    for i in range(n):
        d = {}
        kind = r.ascii(b'FDIRri')
        d['type'] = kind
        title = r.utf8()
        d['title'] = title
        if X.bytelen(title) % 2 == 0:
            r.u8()
        d['id'] = r.i32()
        nx = r.count('i2')
        ny = r.i16(g=(0, 0, -1, 1, 2, 3))
        d['n_bins_x'] = nx
        d['n_bins_y'] = ny
        d['entries'] = r.i32()
        te = r.i32(g=(0, 1, 5, -1))
        d['tentries'] = te
        real = kind == 'R' or kind == 'r' or kind == 'F' or kind == 'D'
        hist_axis(r, d, 'x', real)
        if ny > 0:
            hist_axis(r, d, 'y', real)
        if kind == 'F' or kind == 'D':
            d['content_all'] = r.f32()
            d['content_inside'] = r.f32()
            d['content_outside'] = r.arr('f4', 8)
            dt = 'f4'
        else:
            dt = 'i4'
        if ny > 0:
            if te > 0:
                d['data'] = r.arr2(dt, ny, nx)
            else:
                d['data'] = X.anydt(X.full('f8', (ny, nx), 0.0))
        else:
            if te > 0:
                d['data'] = r.arr(dt, nx)
            else:
                d['data'] = X.anydt(X.full('f8', (nx,), 0.0))
        out.append(d)
    return out


def hist_axis(r, d, ax, real):
    d['underflow_' + ax] = r.i32()
    d['overflow_' + ax] = r.i32()
    for k in ('lower_', 'upper_', 'sum_', 'tsum_'):
        if real:
            d[k + ax] = r.f32()
        else:
            d[k + ax] = r.i32()


@block(SO + 'HistoryCommandLine', 'C15', (0,))
def history_command_line(r, h):
    t = r.i32()
    return (t, r.string())


@block(SO + 'HistoryConfig', 'C15', (0,))
def history_config(r, h):
    t = r.i32()
    return (t, r.string())


@block(SO + 'HistoryMeta', 'C15', (0,))
def history_meta(r, h):
    n = r.uvcount()
    d = {}
    for i in range(n):
        k = r.vstring()
        v = r.vstring()
        d[k] = v
    return d
