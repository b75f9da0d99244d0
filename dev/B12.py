V='visualize'
B=[
('nofig','C24',V,[("""    plt.figure()
    plt.semilogy""","""    plt.semilogy""")]),
('nofig2','C24',V,[("""    plt.figure()
    plt.axis('equal')

    if""","""    plt.axis('equal')

    if""")]),
('okfig','C24',V,[("""    plt.figure()
    plt.semilogy""","""    fig, ax = plt.subplots()
    plt.semilogy""")]),
('okfig2','C24','oneka',[("                create_impact_plot(","                pass\n                create_impact_plot(")]),
('show','C22','oneka',[("plt.show()","plt.close('all')")]),
('show2','C22','oneka',[("plt.show()","if nrealizations > 1:\n        plt.show()")]),
('plain','C24',V,[("ZZ","")]),
]
B=[b for b in B if b[0]!='plain' and b[0]!='okfig2']
