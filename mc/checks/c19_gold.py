"""labels of the result quantities"""
GOLD = {
    'DR': ('sensitivity', 'DR',
        None),
    'DR_dB': ('sensitivity', '$DR_{dB}$',
        'dB'),
    'DSNU1288': ('spatial', '$DSNU_{1288}$',
        '$e^-$'),
    'DSNU1288_DN': ('spatial', '$DSNU_{1288.DN}$',
        'DN'),
    'DSNU1288_col': ('spatial', '$DSNU_{1288.col}$',
        '$e^-$'),
    'DSNU1288_pixel': ('spatial', '$DSNU_{1288.pixel}$',
        '$e^-$'),
    'DSNU1288_row': ('spatial', '$DSNU_{1288.row}$',
        '$e^-$'),
    'K': ('sensitivity', 'K',
        '$DN/e^-$'),
    'LE_max': ('linearity', '$LE_{max}$',
        '\\%'),
    'LE_min': ('linearity', '$LE_{min}$',
        '\\%'),
    'PRNU1288': ('spatial', '$PRNU_{1288}$',
        '\\%'),
    'PRNU1288_col': ('spatial', '$PRNU_{1288.col}$',
        '\\%'),
    'PRNU1288_pixel': ('spatial', '$PRNU_{1288.pixel}$',
        '\\%'),
    'PRNU1288_row': ('spatial', '$PRNU_{1288.row}$',
        '\\%'),
    'QE': ('sensitivity', '$\\eta$',
        '\\%'),
    'R': ('sensitivity', 'R',
        'DN/p'),
    'SNR_max': ('sensitivity', '$SNR_{max}$',
        None),
    'SNR_max_bit': ('sensitivity', '$SNR_{max.bit}$',
        'bit'),
    'SNR_max_dB': ('sensitivity', '$SNR_{max.dB}$',
        'dB'),
    'histogram_DSNU': ('defect_pixel', None,
        None),
    'histogram_DSNU_accumulated': ('defect_pixel', None,
        None),
    'histogram_PRNU': ('defect_pixel', None,
        None),
    'histogram_PRNU_accumulated': ('defect_pixel', None,
        None),
    'index_linearity_max': ('linearity', None,
        None),
    'index_linearity_min': ('linearity', None,
        None),
    'index_sensitivity_max': ('sensitivity', None,
        None),
    'index_sensitivity_min': ('sensitivity', None,
        None),
    'index_start': ('info', None,
        None),
    'index_u_ysat': ('sensitivity', None,
        None),
    'inverse_K': ('sensitivity', '1/K',
        '$e^-/DN$'),
    'inverse_SNR_max': ('sensitivity', '$SNR_{max}^{-1}$',
        '\\%'),
    's_2_y': ('spatial', '$s^2_{y}$',
        'DN2'),
    's_2_y_cav': ('spatial', '$s^2_{y.cav}$',
        'DN2'),
    's_2_y_cav_dark': ('spatial', '$s^2_{y.cav.dark}$',
        'DN2'),
    's_2_y_col': ('spatial', '$s^2_{y.col}$',
        'DN2'),
    's_2_y_col_dark': ('spatial', '$s^2_{y.col.dark}$',
        'DN2'),
    's_2_y_dark': ('spatial', '$s^2_{y.dark}$',
        'DN2'),
    's_2_y_measured': ('spatial', '$s^2_{y.measured}$',
        'DN2'),
    's_2_y_measured_dark': ('spatial', '$s^2_{y.measured.dark}$',
        'DN2'),
    's_2_y_pixel': ('spatial', '$s^2_{y.pixel}$',
        'DN2'),
    's_2_y_pixel_dark': ('spatial', '$s^2_{y.pixel.dark}$',
        'DN2'),
    's_2_y_rav': ('spatial', '$s^2_{y.rav}$',
        'DN2'),
    's_2_y_rav_dark': ('spatial', '$s^2_{y.rav.dark}$',
        'DN2'),
    's_2_y_row': ('spatial', '$s^2_{y.row}$',
        'DN2'),
    's_2_y_row_dark': ('spatial', '$s^2_{y.row.dark}$',
        'DN2'),
    'sigma_2_y_stack': ('spatial', '$\\sigma^2_{y.stack}$',
        'DN2'),
    'sigma_2_y_stack_dark': ('spatial', '$\\sigma^2_{y.stack.dark}$',
        'DN2'),
    'sigma_d': ('sensitivity', '$\\sigma_d$',
        '$e^-$'),
    'sigma_y_dark': ('sensitivity', '$\\sigma_{y.dark}$',
        'DN'),
    'u_I_mean': ('dark_current', '$\\mu_{I.mean}$',
        '$e^-/s$'),
    'u_I_mean_DN': ('dark_current', '$\\mu_{I.mean.DN}$',
        '$DN/s$'),
    'u_I_var': ('dark_current', '$\\mu_{I.var}$',
        '$e^-/s$'),
    'u_I_var_DN': ('dark_current', '$\\mu_{I.var.DN}$',
        '$DN/s$'),
    'u_e_min': ('sensitivity', '$\\mu_{e.min}$',
        '$e^-$'),
    'u_e_min_area': ('sensitivity', '$\\mu_{e.min.area}$',
        '$e^-/\\mu m^2$'),
    'u_e_sat': ('sensitivity', '$\\mu_{e.sat}$',
        '$e^-$'),
    'u_e_sat_area': ('sensitivity', '$\\mu_{e.sat.area}$',
        '$e^-/\\mu m^2$'),
    'u_p_min': ('sensitivity', '$\\mu_{p.min}$',
        '$p$'),
    'u_p_min_area': ('sensitivity', '$\\mu_{p.min.area}$',
        '$p/\\mu m^2$'),
    'u_p_sat': ('sensitivity', '$\\mu_{p.sat}$',
        '$p$'),
    'u_p_sat_area': ('sensitivity', '$\\mu_{p.sat.area}$',
        '$p/\\mu m^2$'),
}
