"""a stand-in for the package qgrid, which is not installed here

As in qgrid, the grid works on a copy of the frame, users can edit cells only
if the grid is editable (the default), and get_changed_df returns the rows as
they are shown, with all edits.
"""
import sys
import types


class Widget():
    """a grid shown to the user"""

    def __init__(self, frame, options):
        self._frame = frame.copy(deep=True)
        self.options = dict(options or {})

    @property
    def editable(self):
        """can the user edit"""
        return bool(self.options.get("editable", True))

    @property
    def df(self):
        """what is shown"""
        return self._frame.copy(deep=True)

    def get_changed_df(self):
        """what is shown, edits included"""
        return self._frame.copy(deep=True)

    def user_edits(self, at, column, value):
        """a user types into a cell"""
        if self.editable:
            self._frame.iloc[at, list(self._frame.columns).index(column)] = \
                value

    def user_keeps(self, order):
        """a user sorts or filters"""
        self._frame = self._frame.iloc[order]


def show_grid(data_frame, show_toolbar=None, precision=None,
              grid_options=None, column_options=None,
              column_definitions=None, row_edit_callback=None):
    """as qgrid.show_grid"""
    import pandas as pd
    if not isinstance(data_frame, pd.DataFrame):
        raise TypeError("data_frame must be DataFrame")
    return Widget(data_frame, grid_options)


def install():
    """make 'import qgrid' find this"""
    module = types.ModuleType("qgrid")
    module.show_grid = show_grid
    module.QgridWidget = Widget
    sys.modules["qgrid"] = module
