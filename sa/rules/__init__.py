TABLE = {
    'P01': ('modes', 'p01'),
    'P02': ('modes', 'p02'),
    'P03': ('valid', 'p03'),
    'P04': ('valid', 'p04'),
    'P05': ('valid', 'p05'),
    'P06': ('layout', 'p06'),
    'P07': ('jsonrules', 'p07'),
    'P08': ('jsonrules', 'p08'),
    'P09': ('dictrules', 'p09'),
    'P10': ('dictrules', 'p10'),
    'P13': ('fnrules', 'p13'),
    'P14': ('fnrules', 'p14'),
    'P15': ('optrules', 'p15'),
    'P16': ('optrules', 'p16'),
    'P11': ('effects', 'p11'),
    'P12': ('effects', 'p12'),
    'P17': ('deriv', 'p17'),
    'P18': ('adsafe', 'p18'),
    'P19': ('inverse', 'p19'),
    'P21': ('jacob', 'p21'),
    'P20': ('ranges', 'p20'),
    'P22': ('examples', 'p22'),
    'P23': ('indices', 'p23'),
    'P24': ('examples', 'p24'),
    'P25': ('examples', 'p25'),
    'P26': ('access', 'p26'),
    'P27': ('helpers', 'p27'),
}
