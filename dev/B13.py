V='visualize'
B=[
('ax','C24',V,[("""    plt.figure()
    plt.semilogy""","""    fig, ax = plt.subplots()
    ax.semilogy"""),("    plt.xlim(left=0.0, right=1.0)","    ax.set_xlim(left=0.0, right=1.0)")]),
('ax2','C24',V,[("""    plt.figure()
    plt.semilogy""","""    ax = plt.figure().add_subplot()
    ax.semilogy"""),("    plt.xlim(left=0.0, right=1.0)","    ax.set_xlim(left=0.0, right=1.0)")]),
('ax3','C24',V,[("""    plt.figure()
    plt.axis('equal')

    if""","""    fig, ax = plt.subplots()
    ax.axis('equal')

    if"""),("    plt.contourf(X, Y, Z, np.linspace(0, 1, 11), cmap='tab10')\n    plt.colorbar(","    cs = ax.contourf(X, Y, Z, np.linspace(0, 1, 11), cmap='tab10')\n    fig.colorbar(cs, "),("    plt.plot(xw","    ax.plot(xw")]),
]
B+=[(n,'C25',f,e) for n,p,f,e in B]+[(n,'C26',f,e) for n,p,f,e in B]+[(n,'C28',f,e) for n,p,f,e in B]
