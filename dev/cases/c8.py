U='oneka/utilities.py'
O='oneka/oneka.py'
BODY='''        x = np.array([v[j] for v in values])
        x = x[~np.isnan(x)]

        vcnt[j] = len(x)
        vmin[j] = np.min(x)
        vmed[j] = np.median(x)
        vmax[j] = np.max(x)
        vavg[j] = np.mean(x)
        vstd[j] = np.std(x)
'''
CNT='''    buf.write('cnt: ')
    for j in range(nvar):
        buf.write('{0:>{w}d}'.format(vcnt[j], w=widths[j]))
    buf.write('\\n')
'''
MIN='''    buf.write('min: ')
    for j in range(nvar):
        buf.write('{0:{fmt}}'.format(vmin[j], fmt=formats[j]))
    buf.write('\\n')
'''
CASES=[
('c29 ddof','C29','violated',U,'np.std(x)','np.std(x, ddof=1)'),
('c29 max/min swapped','C29','violated',U,"buf.write('{0:{fmt}}'.format(vmax[j]","buf.write('{0:{fmt}}'.format(vmin[j]"),
('c29 no nan','C29','violated',U,'x = x[~np.isnan(x)]','x = x + 0'),
('c29 cnt all','C29','violated',U,'vcnt[j] = len(x)','vcnt[j] = len(values)'),
('c29 fmt0','C29','violated',U,"buf.write('{0:{fmt}}'.format(vmed[j], fmt=formats[j]))","buf.write('{0:{fmt}}'.format(vmed[j], fmt=formats[0]))"),
('c29 names rev','C29','violated',U,"format(names[j], w","format(names[nvar-1-j], w"),
('c29 col','C29','violated',U,'[v[j] for v in values]','[v[max(j-1,0)] for v in values]'),
('c29 skip first','C29','violated',U,'[v[j] for v in values]','[v[j] for v in values[1:]]'),
('c29 raw obs','C29','violated',O,'summary_statistics(obs,','summary_statistics(observations,'),
('c29 not logged','C29','violated',O,'log.info(buf.getvalue())','pass'),
('c29 head swap','C29','violated',O,"['Easting', 'Northing', 'Head', 'Stdev']","['Northing', 'Easting', 'Head', 'Stdev']"),
('c29 avg median','C29','violated',U,'vavg[j] = np.mean(x)','vavg[j] = np.median(x)'),
('c29 r nan funcs','C29','held',U,BODY,'''        x = np.array([v[j] for v in values])
        vcnt[j] = np.count_nonzero(~np.isnan(x))
        vmin[j] = np.nanmin(x)
        vmed[j] = np.nanmedian(x)
        vmax[j] = np.nanmax(x)
        vavg[j] = np.nanmean(x)
        vstd[j] = np.nanstd(x)
'''),
('c29 r table','C29','held',U,BODY,'''        column = np.asarray([row[j] for row in values], dtype=float)
        keep = np.logical_not(np.isnan(column))
        x = column[keep]

        vcnt[j] = x.size
        vmin[j] = x.min()
        vmed[j] = np.median(x)
        vmax[j] = x.max()
        vavg[j] = x.mean()
        vstd[j] = x.std()
'''),
('c29 r all columns','C29','held',U,BODY,'''        data = np.array(values)
        x = data[:, j]
        x = x[np.isfinite(x) | ~np.isnan(x)]
        vcnt[j] = len(x)
        vmin[j] = np.min(x)
        vmed[j] = np.median(x)
        vmax[j] = np.max(x)
        vavg[j] = np.sum(x)/len(x)
        vstd[j] = np.sqrt(np.var(x))
'''),
('c29 r join','C29','held',U,MIN,'''    buf.write('min: ' + ''.join('{0:{fmt}}'.format(vmin[j], fmt=formats[j]) for j in range(nvar)) + '\\n')
'''),
('c29 r fstring','C29','held',U,CNT,'''    line = 'cnt: '
    for count, w in zip(vcnt, widths):
        line += f'{count:>{w}d}'
    print(line, file=buf)
'''),
('c29 r helper','C29','held',U,"# Write out the cnt\n"+CNT,'''# Write out the cnt
    def row(label, vals):
        buf.write(label)
        for j in range(nvar):
            buf.write('{0:>{w}d}'.format(vals[j], w=widths[j]))
        buf.write('\\n')
    row('cnt: ', vcnt)
'''),
('c29 r helper2','C29','held',U,MIN,'''    for label, vals in (('min: ', vmin),):
        buf.write(label)
        buf.writelines(['{0:{fmt}}'.format(v, fmt=f) for v, f in zip(vals, formats)])
        buf.write('\\n')
'''),
('c29 r inline','C29','held',O,'log.info(buf.getvalue())',"log.info('%s', buf.getvalue())"),
('c29 r inline2','C29','held',O,'log.info(buf.getvalue())',"log.info(f'{buf.getvalue()}')"),
('c29 r stats dict','C29','held',U,'vmed[j] = np.median(x)','vmed[j] = np.percentile(x, 50)'),
]
CASES=[(n,[(f,a,b)],[p],x) for n,p,x,f,a,b in CASES]
