P="C29"
NEEDS="a serial line that was last used with odd parity, configured for even parity"
BREAKS="even parity leaves the line's odd-parity flag as it was found"
EDITS=[("src/server-serial.c","tty->c_cflag &= ~PARODD;","")]
DEMO='''
import pty, termios
m, s = pty.openpty()
a = termios.tcgetattr(s); a[2] |= termios.PARENB | termios.PARODD
termios.tcsetattr(s, termios.TCSANOW, a)
d = Daemon('server port=0\\nconsole name="k" dev="%s" seropts="9600,8E1"\\n' % os.ttyname(s))
if d.port is None: fail("no daemon: " + d.log())
time.sleep(.3)
f = termios.tcgetattr(s)[2]
if f & termios.PARODD: fail("odd parity: cflag %o" % f)
ok()
'''
