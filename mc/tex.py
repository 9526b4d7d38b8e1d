"""Reads back what a report says (a small TeX reader)."""
import re

# quantity: (section, decimals, symbol, unit); the symbol of a row without
# one is that of the row before
from .checks.c19_gold import GOLD

DECIMALS = [('QE', 2), ('K', 3), ('inverse_K', 3), ('sigma_d', 3),
            ('sigma_y_dark', 3), ('SNR_max', 0), ('SNR_max_dB', 2),
            ('SNR_max_bit', 1), ('inverse_SNR_max', 3), ('u_p_min', 3),
            ('u_p_min_area', 3), ('u_e_min', 3), ('u_e_min_area', 3),
            ('u_p_sat', 0), ('u_p_sat_area', 3), ('u_e_sat', 0),
            ('u_e_sat_area', 0), ('DR', 0), ('DR_dB', 1), ('DSNU1288', 1),
            ('DSNU1288_row', 1), ('DSNU1288_col', 1), ('DSNU1288_pixel', 1),
            ('PRNU1288', 1), ('PRNU1288_row', 1), ('PRNU1288_col', 1),
            ('PRNU1288_pixel', 1), ('LE_min', 3), ('LE_max', 3),
            ('u_I_mean', 3), ('u_I_mean_DN', 3), ('u_I_var', 3),
            ('u_I_var_DN', 3)]
HEAD = {'SNR_max_dB': 'SNR_max', 'SNR_max_bit': 'SNR_max', 'DR_dB': 'DR',
        'u_I_mean_DN': 'u_I_mean', 'u_I_var_DN': 'u_I_var'}


def key(name):
    """(symbol, unit) of the row that shows a quantity"""
    return GOLD[HEAD.get(name, name)][1], GOLD[name][2] or ''


BASIC = [('vendor', 'Vendor', ''), ('model', 'Model', ''),
         ('data_type', 'Data type', ''), ('sensor_type', 'Sensor type', ''),
         ('sensor_diagonal', 'Diagonal', ''),
         ('lens_category', 'Lens category', ''),
         ('resolution', 'Resolution', ' pixels'),
         ('pixel_size', 'Pixel size', r' $\mu m$'),
         ('readout_type', 'Readout type', ''),
         ('transfer_type', 'Transfer type', ''),
         ('shutter_type', 'Shutter type', ''),
         ('overlap_capabilities', 'Overlap capabilities', ''),
         ('maximum_readout_rate', 'Maximum readout rate', ''),
         ('dark_current_compensation', 'Dark current compensation', ''),
         ('interface_type', 'Interface type', '')]
KIND = {'CCD': ('readout_type', 'transfer_type'),
        'CMOS': ('shutter_type', 'overlap_capabilities')}
SETUP = ['Light source', 'Light source non uniformity',
         'Irradiation calibration accuracy', 'Irradiation measurement error',
         'Standard version']
PLOTS = ['PTC', 'SNR', 'Sensitivity', 'UyDark', 'Linearity',
         'DeviationLinearity', 'HorizontalSpectrogramPRNU',
         'HorizontalSpectrogramDSNU', 'VerticalSpectrogramPRNU',
         'VerticalSpectrogramDSNU', 'LogarithmicHistogramDSNU',
         'LogarithmicHistogramPRNU', 'AccumulatedLogHistogramDSNU',
         'AccumulatedLogHistogramPRNU', 'HorizontalProfile',
         'VerticalProfile']
SUMMARY = PLOTS[:2]


def strip_comments(text):
    return '\n'.join(re.sub(r'(?<!\\)%.*', '', ln)
                     for ln in text.split('\n'))


def graphics(text):
    return re.findall(r'\\includegraphics(?:\[[^\]]*\])?\{([^}]*)\}', text)


def pairs(text):
    """[(label, value)] of the information lines"""
    return [(a, b.strip()) for a, b in re.findall(
        r'\\textsl\{([^}]*)\}[ \t]*\\hfill[ \t]*(.*)', text)]


def header(text):
    """camera settings and parameters of an operation point"""
    a, b = text.split(r'\textbf{Operation point parameters}')[:2]
    a = a.split(r'\textbf{Camera setting}')[1]
    b = b.split(r'\end{multicols}')[0]
    return pairs(a), pairs(b)


def rows(text):
    """[((symbol, unit), value)] of the table of results"""
    t = text.split(r'\begin{tabular}')[1].split(r'\end{tabular}')[0]
    t = re.sub(r'\\\\(\[[^\]]*\])?', '\0', t)
    out, last = [], None
    for row in t.split('\0'):
        c = [x.strip() for x in row.split('&')]
        if len(c) < 2:
            continue
        if c[0]:
            last = c[0]
        out.append(((last, c[2] if len(c) > 2 else ''), c[1]))
    return out


def decode(raw):
    """the text of a file as TeX reads it"""
    m = re.search(br'\\usepackage\[([^\]]*)\]\{inputenc\}', raw)
    enc = m.group(1).decode() if m else 'utf8'
    return raw.decode({'utf8': 'utf-8'}.get(enc, enc))


class Report(object):
    def __init__(self, raw):
        self.text = strip_comments(decode(raw))
        body = self.text.split(r'\begin{document}')[1]
        self.preamble = self.text.split(r'\begin{document}')[0]
        parts = re.split(r'\\ReportSection\{Operation Point:', body)
        self.cover = parts[0]
        self.inputs = re.findall(r'\\input\{([^}]*)\}', body)
        info = self.cover.split(r'\underline{')[0]
        self.info = pairs(info)
        # operation points on the cover
        self.index = []
        chunks = re.split(r'\\underline\{\\textsl\{Operation Point: ',
                          self.cover)[1:]
        for c in chunks:
            m = re.match(r'\\textbf\{([^}]*)\} '
                         r'\(Page \\pageref\{([^}]*)\}\)', c)
            self.index.append((m.group(1), m.group(2), header(c)))
        self.ops = []
        for p in parts[1:]:
            m = re.match(r' \\textbf\{([^}]*)\} \(@(.*?)\)\}', p)
            s = re.search(r'Summary sheet for Operation Point: '
                          r'\\textbf\{([^}]*)\}\\label\{([^}]*)\}', p)
            self.ops.append({'name': m.group(1), 'wavelength': m.group(2),
                             'name2': s.group(1), 'label': s.group(2),
                             'header': header(p), 'rows': rows(p),
                             'graphics': graphics(p)})
        self.graphics = graphics(self.text)
        self.cover_graphics = graphics(self.cover)


def number(value, decimals):
    """expected cell; None for any missing value"""
    if value is None or value != value:
        return '-'
    return '{:.{}f}'.format(float(value), decimals)


def shows(cell, value, decimals):
    """the cell shows this value, rounded to at least these decimals"""
    if value is None or value != value:
        return cell == '-'
    try:
        v = float(cell)
    except ValueError:
        return False
    if v == value:
        return True
    return abs(v - value) <= .500001 * 10. ** -decimals + 1e-12 * abs(value)


def info_text(value, unit=''):
    if value is None or (isinstance(value, float) and value != value):
        return '-' + unit
    return '%s%s' % (value, unit)
