"""Ghost model of the output logger of the command line (the assumed contract of logging.Logger with the handler main() installs:
each record of level INFO is printed as one line)."""


class Console:
    def __init__(self):
        self.lines = ()

    def info(self, msg):
        self.lines = self.lines + (msg,)
