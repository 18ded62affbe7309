"""C13: telescopes, backgrounds, published measurements and units."""
from agents_checks import laws, walks
from common import SPEC, pmap
import instruments_driver

ENV = {"INSTR": SPEC / "data" / "instruments.json"}


def run(check):
    laws(check, "InstrumentsGen", "SlopesAreSlopes Positive LinearInAmplitude TablesAnswerRows ErrorBars Sphere", env=ENV)
    check.validate("InstrumentsTrace", pmap(instruments_driver.perform, walks(check, "InstrumentsGen", 150, 30, env=ENV)), env=ENV, timeout=850)
