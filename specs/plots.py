"""What the plot helpers draw on the axis they are given."""
import numpy as np
from magpie import coords, pixel, densegrid
from magpie.plots import ortho, shapes

PI = np.pi


class Axis:
    def __init__(self):
        self.lines = []; self.opts = []; self.images = []; self.texts = []; self.xl = None; self.yl = None; self.off = False
        self.xt = None; self.xn = None; self.yt = None; self.yn = None

    def plot(self, x, y, **kw):
        self.lines.append((x, y)); self.opts.append(kw)

    def imshow(self, m, **kw):
        self.images.append((m, kw)); return 'bar'

    def text(self, x, y, s, **kw):
        self.texts.append((x, y, s, kw))

    def set_xlim(self, a, b):
        self.xl = (a, b)

    def set_ylim(self, a, b):
        self.yl = (a, b)

    def xlim(self, a, b):
        self.xl = (a, b)

    def ylim(self, a, b):
        self.yl = (a, b)

    def set_xticks(self, t):
        self.xt = t

    def set_xticklabels(self, n, **kw):
        self.xn = n

    def set_yticks(self, t):
        self.yt = t

    def set_yticklabels(self, n, **kw):
        self.yn = n

    def xticks(self, ticks, labels, **kw):
        self.xt = ticks; self.xn = labels

    def yticks(self, ticks, labels, **kw):
        self.yt = ticks; self.yn = labels

    def axis(self, s):
        self.off = s == 'off'


def P31_box():
    a = Axis(); x0 = real('x0'); y0 = real('y0'); dx = real('dx', 0.1, 3); dy = real('dy', 0.1, 3)
    shapes.plot_box(x0, x0 + dx, y0, y0 + dy, ax=a, divisions=8, color='r')
    equal(len(a.lines), 1, 'one outline')
    x, y = a.lines[0]
    gx, gy = pixel.get_square(x0, x0 + dx, y0, y0 + dy, steps=8)
    equal(x, gx, 'the outline of the box'); equal(y, gy, 'the outline of the box')
    holds(a.opts[0]['color'] == 'r', 'drawing options are passed on')


def P31_circle():
    a = Axis(); r = real('r', 0.1, 3); cx = real('cx'); cy = real('cy')
    shapes.plot_circle(r, [cx, cy], 9, ax=a, color='r')
    equal(len(a.lines), 1, 'one outline')
    x, y = a.lines[0]
    for k in range(len(x)):
        equal((x[k] - cx)**2 + (y[k] - cy)**2, r**2, 'on the circle')
    equal(x[0], x[len(x) - 1], 'closed'); equal(y[0], y[len(y) - 1], 'closed')
    equal(len(x), 9, 'as many points as asked')
    shapes.plot_circle(ax=a, length=5)
    equal(a.lines[1][0]**2 + a.lines[1][1]**2, np.ones(5), 'unit circle by default')


def view(c=(PI/3, PI/4)):
    h = densegrid.Heal2Ortho()
    h.setup_map(1)
    h.setup_box(0.9, 2, center=[c[0], c[1]], y_length=0.7, y_grid=1)
    return h


def P31_limits():
    h = view(); p = ortho.PlotOrtho(h)
    for side in (True, False):
        a = Axis()
        p.finalize(insphere=side, ax=a, edgelength=9)
        lo, hi = (0.45, -0.45) if side else (-0.45, 0.45)
        equal(a.xl[0], lo, 'horizontal limits'); equal(a.xl[1], hi, 'horizontal limits')
        equal(a.yl[0], -0.35, 'vertical limits'); equal(a.yl[1], 0.35, 'vertical limits')
        holds(a.off, 'the frame is off')
        equal(len(a.lines), 1, 'the edge of the sphere is drawn')
        x, y = a.lines[0]
        equal(len(x), 9, 'as many points as asked')
        equal(x**2 + y**2, np.ones(9), 'the edge of the sphere')
    a = Axis()
    p.finalize(ax=a, edgelength=5, edgecenter=[0.5, 0.2])
    x, y = a.lines[0]
    equal((x - 0.5)**2 + (y - 0.2)**2, np.ones(5), 'the edge where asked')
    a = Axis()
    p.finalize(ax=a, outeredge=False)
    equal(len(a.lines), 0, 'no edge unless asked')


def P31_image():
    h = view(); p = ortho.PlotOrtho(h); a = Axis()
    m = array('m', (1, 2))
    holds(p.imshow(m, ax=a) is None, 'nothing is handed back unless asked')
    holds(p.imshow(m, ax=a, returncb=True) == 'bar', 'the image is handed back if asked')
    for g, kw in a.images:
        equal(g, m, 'the image itself'); holds(kw['origin'] == 'lower', 'first row at the bottom')
        e = kw['extent']
        equal(e[0], -0.45, 'extent'); equal(e[1], 0.45, 'extent'); equal(e[2], -0.35, 'extent'); equal(e[3], 0.35, 'extent')


def P31_grid():
    h = view(); p = ortho.PlotOrtho(h); a = Axis()
    p.plot_grid(dtheta=90., dphi=120., ax=a, color='b')
    equal(len(a.lines), 3 + 2, 'one line for each multiple of the spacings')
    for k in range(3):
        n = len(a.lines[k][0])
        x, y = h.transform(k*2*PI/3*np.ones(n), np.linspace(0., PI, n))
        equal(a.lines[k][0], x, 'lines of equal azimuth'); equal(a.lines[k][1], y, 'lines of equal azimuth')
    for k in range(2):
        n = len(a.lines[3 + k][0])
        x, y = h.transform(np.linspace(0., 2*PI, n), k*PI/2*np.ones(n))
        equal(a.lines[3 + k][0], x, 'lines of equal colatitude'); equal(a.lines[3 + k][1], y, 'lines of equal colatitude')
    holds(a.opts[0]['color'] == 'b', 'drawing options are passed on')


def P31_grid_spacing():
    h = view((0, PI/2)); p = ortho.PlotOrtho(h); b = Axis()
    p.plot_grid(dtheta=180., ax=b)
    equal(len(b.lines), 2 + 1, 'equal spacings by default')


def P31_labels():
    for c in ((PI/3, PI/2), (PI/2, PI/2)):
        h = densegrid.Heal2Ortho()
        h.setup_map(1)
        h.setup_box(1.2, 2, center=[c[0], c[1]], y_length=1.2, y_grid=2)
        p = ortho.PlotOrtho(h); a = Axis()
        p.plot_labels(dtheta=30., zeropoint=[c[0], PI/2], ax=a, onsphere=True)
        m = 0
        for k in range(12):
            f = k*PI/6
            if abs(f - c[0]) < PI/2 - 0.1 and np.sin(abs(f - c[0])) < 0.6:
                x, y = h.transform(f, PI/2)
                equal(a.texts[m][0], x, 'labels of the azimuths'); equal(a.texts[m][1], y, 'labels of the azimuths')
                equal(number_in(a.texts[m][2]), 30*k, 'the label is the angle in degrees')
                m = m + 1
        for k in range(1, 6):
            if abs(np.cos(k*PI/6)) < 0.6:
                x, y = h.transform(c[0], k*PI/6)
                equal(a.texts[m][0], x, 'labels of the colatitudes'); equal(a.texts[m][1], y, 'labels of the colatitudes')
                equal(number_in(a.texts[m][2]), 30*k, 'the label is the angle in degrees')
                m = m + 1
        equal(len(a.texts), m, 'only labels inside the picture')
        b = Axis()
        p.plot_labels(dtheta=30., zeropoint=[c[0], PI/2], ax=b, onsphere=True, lonlat=True, userotation=True, ha='right', va='bottom')
        equal(len(b.texts), m, 'as many labels with latitudes')
        for k in range(m):
            equal(b.texts[k][0], a.texts[k][0], 'the labels stay where they are'); equal(b.texts[k][1], a.texts[k][1], 'the labels stay where they are')
            holds(b.texts[k][3]['ha'] == 'right' and b.texts[k][3]['va'] == 'bottom', 'alignment is passed on')
            holds('rotation' in b.texts[k][3] and 'rotation' not in a.texts[k][3], 'labels are turned if asked')
            up = np.deg2rad(b.texts[k][3]['rotation']) + PI/2
            u = b.texts[k][0] - h.transform(0., 0.)[0]; v = b.texts[k][1] - h.transform(0., 0.)[1]
            d = np.sqrt(u**2 + v**2)
            equal(d*np.cos(up), u, 'turned labels stand towards the pole (seen from inside)'); equal(d*np.sin(up), -v, 'turned labels stand towards the pole (seen from inside)')


def P31_polar_box():
    h = view(); p = ortho.PlotOrtho(h); a = Axis()
    p.plot_polar_box(0.2, 0.5, 0.7, 1.1, ax=a, divisions=8, color='g')
    p.plot_polar_box(0.2, 0.5, PI/2 - 1.1, PI/2 - 0.7, lonlat=True, ax=a, divisions=8)
    f, t = pixel.get_square(0.2, 0.5, 0.7, 1.1, steps=8)
    x, y = h.transform(f, t)
    for k in range(2):
        equal(a.lines[k][0], x, 'outline of the box on the sky'); equal(a.lines[k][1], y, 'outline of the box on the sky')
    holds(a.opts[0]['color'] == 'g', 'drawing options are passed on')


def same_drawing(a, b):
    for u, v in ((a.lines, b.lines), (a.texts, b.texts), (a.images, b.images)):
        equal(len(u), len(v), 'as much is drawn on the current axis as on a given one')
        for k in range(len(u)):
            equal(u[k][0], v[k][0], 'the same on the current axis'); equal(u[k][1], v[k][1], 'the same on the current axis')
    for k in range(len(a.lines)):
        for n in a.opts[k]:
            holds(a.opts[k][n] == b.opts[k][n], 'the same drawing options on the current axis')
    for k in range(len(a.texts)):
        equal(number_in(a.texts[k][2]), number_in(b.texts[k][2]), 'the same label on the current axis')
        holds(('rotation' in a.texts[k][3]) == ('rotation' in b.texts[k][3]), 'turned alike on the current axis')
    equal(a.xl, b.xl, 'the same limits on the current axis'); equal(a.yl, b.yl, 'the same limits on the current axis')
    equal(a.off == b.off, True, 'the frame is the same on the current axis')


def both(f, *args, **kw):
    a = Axis(); b = Axis()
    f(*args, ax=a, **kw)
    current_axis(b)
    f(*args, **kw)
    current_axis(None)
    same_drawing(a, b)


def P31_current_axis():
    both(shapes.plot_box, 0.1, 0.7, -0.4, 0.5, divisions=8, color='r')
    both(shapes.plot_circle, 0.7, [0.1, 0.2], 9, color='r')
    h = view(); p = ortho.PlotOrtho(h)
    both(p.finalize, edgelength=9)
    both(p.finalize, insphere=False, edgelength=9)
    both(p.finalize, outeredge=False)
    both(p.plot_grid, dtheta=90., dphi=180., color='b', linestyle='-')
    both(p.plot_polar_box, 0.2, 0.5, 0.7, 1.1, divisions=8, color='g')


def P31_current_axis_labels():
    h = densegrid.Heal2Ortho()
    h.setup_map(1)
    h.setup_box(1.2, 2, center=[PI/3, PI/2], y_length=1.2, y_grid=2)
    p = ortho.PlotOrtho(h)
    both(p.plot_labels, dtheta=30., zeropoint=[PI/3, PI/2], onsphere=True)
    both(p.plot_labels, dtheta=30., zeropoint=[PI/3, PI/2], onsphere=True, userotation=True)


def P31_label_turn():
    h = densegrid.Heal2Ortho()
    h.setup_map(1)
    h.setup_box(1.2, 2, center=[PI/3, PI/4], y_length=1.2, y_grid=2)
    p = ortho.PlotOrtho(h); a = Axis()
    p.plot_labels(dtheta=30., zeropoint=[PI/3, PI/3], ax=a, onsphere=True, userotation=True)
    holds(len(a.texts) > 3, 'labels inside the picture')
    px, py = h.transform(0., 0.)
    for x, y, s, kw in a.texts:
        up = np.deg2rad(kw['rotation']) + PI/2
        d = np.sqrt((x - px)**2 + (y - py)**2)
        equal(d*np.cos(up), x - px, 'turned labels stand towards the pole (seen from inside)')
        equal(d*np.sin(up), -(y - py), 'turned labels stand towards the pole (seen from inside)')


def P31_label_shift():
    h = densegrid.Heal2Ortho()
    h.setup_map(1)
    h.setup_box(1.2, 2, center=[PI/2, PI/2], y_length=1.2, y_grid=2)
    p = ortho.PlotOrtho(h); a = Axis()
    p.plot_labels(dtheta=30., zeropoint=[PI/2, PI/2], ax=a, onsphere=True, shift=[2., 5.])
    equal(len(a.texts), 6, 'only labels inside the picture')
    for k in range(3):
        x, y = h.transform((60 + 30*k - 2)*PI/180, PI/2)
        equal(a.texts[k][0], x, 'labels of the azimuths are moved as asked'); equal(a.texts[k][1], y, 'labels of the azimuths are moved as asked')
        equal(number_in(a.texts[k][2]), 60 + 30*k, 'the label is the angle in degrees')
        x, y = h.transform(PI/2, (60 + 30*k - 5)*PI/180)
        equal(a.texts[3 + k][0], x, 'labels of the colatitudes are moved as asked'); equal(a.texts[3 + k][1], y, 'labels of the colatitudes are moved as asked')
        equal(number_in(a.texts[3 + k][2]), 60 + 30*k, 'the label is the angle in degrees')


def ticks(c, wx, wy, n, tol):
    h = densegrid.Heal2Ortho()
    h.setup_map(1)
    h.setup_box(wx, 2, center=[c[0], c[1]], y_length=wy, y_grid=2)
    p = ortho.PlotOrtho(h); a = Axis()
    p.plot_labels(dtheta=10., ax=a, interpaxis=n)
    # axes of the sky seen in the picture
    e = []
    # each axis by the end of it that is seen
    for f, t, s in ((0., PI/2, 1) if np.cos(c[0]) > 0 else (PI, PI/2, -1), (PI/2, PI/2, 1) if np.sin(c[0]) > 0 else (3*PI/2, PI/2, -1), (0., 0., 1) if c[1] < PI/2 else (0., PI, -1)):
        x, y = h.transform(f, t)
        e.append((s*x, s*y, s*np.sqrt(1 - x**2 - y**2)))

    def sky(x, y):
        z = np.sqrt(1 - x**2 - y**2)
        q = [x*v[0] + y*v[1] + z*v[2] for v in e]
        return np.arctan2(q[1], q[0]), np.arccos(q[2])

    equal(len(a.yt), len(a.yn), 'one label for each mark'); equal(len(a.xt), len(a.xn), 'one label for each mark')
    holds(len(a.yt) > 0, 'marks on the vertical edge'); holds(len(a.xt) > 0, 'marks on the horizontal edge')
    for k in range(len(a.yt)):
        f, t = sky(wx/2, a.yt[k])
        holds(abs(np.rad2deg(PI/2 - t) - a.yn[k]) < tol, 'marks where the edge has the latitude written there')
    for k in range(len(a.xt)):
        f, t = sky(a.xt[k], -wy/2)
        holds(abs(np.rad2deg(f % (2*PI)) - a.xn[k]) < tol, 'marks where the edge has the azimuth written there')
    b = Axis()
    current_axis(b)
    p.plot_labels(dtheta=10., interpaxis=n)
    current_axis(None)
    equal(b.xt, a.xt, 'the same marks on the current axis'); equal(b.yt, a.yt, 'the same marks on the current axis')
    equal(b.xn, a.xn, 'the same labels on the current axis'); equal(b.yn, a.yn, 'the same labels on the current axis')


def P31_ticks():
    ticks((PI/3, PI/3), 0.8, 0.6, 9, 0.5)


def P31_ticks_near_the_pole():
    ticks((PI/3, 0.45), 0.8, 1.4, 15, 2.)


def P31_ticks_near_the_south_pole():
    ticks((PI/3, PI - 0.45), 0.8, 1.4, 15, 2.)


def P31_ticks_across_zero():
    # the azimuth wraps from 2 pi to 0 within the picture
    ticks((0.05, PI/3), 0.8, 0.6, 9, 0.5)
    ticks((2*PI - 0.04, 2*PI/3), 0.8, 0.6, 9, 0.5)


def P31_ticks_beyond_the_pole():
    # the pole is within the picture: seen from the lower edge the azimuth runs the other way
    ticks((PI + 0.1, PI - 0.25), 0.8, 1.4, 15, 2.)
    ticks((PI/3, PI - 0.25), 0.8, 1.4, 15, 2.)


def P31_label_spacings():
    h = densegrid.Heal2Ortho()
    h.setup_map(1)
    h.setup_box(1.2, 2, center=[PI/2, PI/2], y_length=1.2, y_grid=2)
    p = ortho.PlotOrtho(h); a = Axis()
    p.plot_labels(dtheta=30., dphi=90., zeropoint=[PI/2, PI/2], ax=a, onsphere=True)
    equal(len(a.texts), 1 + 3, 'own spacing of the azimuths')
    x, y = h.transform(PI/2, PI/2)
    equal(a.texts[0][0], x, 'labels of the azimuths'); equal(a.texts[0][1], y, 'labels of the azimuths')
    equal(number_in(a.texts[0][2]), 90, 'the label is the angle in degrees')
    b = Axis()
    p.plot_labels(dtheta=90., dphi=30., zeropoint=[PI/2 - 2*PI, PI/2], ax=b, onsphere=True)
    equal(len(b.texts), 3 + 1, 'own spacing of the azimuths')
    for k in range(3):
        x, y = h.transform((2 + k)*PI/6, PI/2)
        equal(b.texts[k][0], x, 'labels of the azimuths'); equal(b.texts[k][1], y, 'labels of the azimuths')
        equal(number_in(b.texts[k][2]), 60 + 30*k, 'the label is the angle in degrees')
