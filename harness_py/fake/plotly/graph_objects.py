class Layout:
    """What was asked for; None for everything else, as plotly has it."""

    def __init__(self, fig):
        self.__dict__.update(fig.spec.get("layout") or {}, **fig.look)

    def __getattr__(self, name):
        return None

    def __getitem__(self, name):
        return getattr(self, name)


class Figure:
    """Holds the figure as the extension module described it, and what was changed on top."""

    def __init__(self, spec):
        self.spec = spec
        self.style = {}
        self.look = {}
        self.images = []

    @property
    def layout(self):
        return Layout(self)

    def write_image(self, file, format=None, scale=None, width=None, height=None, **kwargs):
        self.images.append(dict(file=file, format=format, scale=scale, width=width, height=height, **kwargs))

    def plotly_update(self, restyle_data=None, relayout_data=None, trace_indexes=None):
        self.plotly_restyle(restyle_data or {})
        self.plotly_relayout(relayout_data or {})

    def plotly_restyle(self, restyle_data, trace_indexes=None, **kwargs):
        self.style.update(restyle_data)

    def plotly_relayout(self, relayout_data, **kwargs):
        self.look.update(relayout_data)

    def update_traces(self, patch=None, **kwargs):
        self.style.update(patch or {}, **kwargs)
        return self

    def update_layout(self, dict1=None, overwrite=False, **kwargs):
        self.look.update(dict1 or {}, **kwargs)
        return self

    def update(self, dict1=None, overwrite=False, **kwargs):
        d = dict(dict1 or {}, **kwargs)
        self.look.update(d.get("layout") or {})
        return self
