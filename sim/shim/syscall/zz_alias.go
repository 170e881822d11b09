// Code generated by genalias. DO NOT EDIT.

package syscall

import std "syscall"

const AF_ALG = std.AF_ALG
const AF_APPLETALK = std.AF_APPLETALK
const AF_ASH = std.AF_ASH
const AF_ATMPVC = std.AF_ATMPVC
const AF_ATMSVC = std.AF_ATMSVC
const AF_AX25 = std.AF_AX25
const AF_BLUETOOTH = std.AF_BLUETOOTH
const AF_BRIDGE = std.AF_BRIDGE
const AF_CAIF = std.AF_CAIF
const AF_CAN = std.AF_CAN
const AF_DECnet = std.AF_DECnet
const AF_ECONET = std.AF_ECONET
const AF_FILE = std.AF_FILE
const AF_IEEE802154 = std.AF_IEEE802154
const AF_INET = std.AF_INET
const AF_INET6 = std.AF_INET6
const AF_IPX = std.AF_IPX
const AF_IRDA = std.AF_IRDA
const AF_ISDN = std.AF_ISDN
const AF_IUCV = std.AF_IUCV
const AF_KEY = std.AF_KEY
const AF_LLC = std.AF_LLC
const AF_LOCAL = std.AF_LOCAL
const AF_MAX = std.AF_MAX
const AF_NETBEUI = std.AF_NETBEUI
const AF_NETLINK = std.AF_NETLINK
const AF_NETROM = std.AF_NETROM
const AF_PACKET = std.AF_PACKET
const AF_PHONET = std.AF_PHONET
const AF_PPPOX = std.AF_PPPOX
const AF_RDS = std.AF_RDS
const AF_ROSE = std.AF_ROSE
const AF_ROUTE = std.AF_ROUTE
const AF_RXRPC = std.AF_RXRPC
const AF_SECURITY = std.AF_SECURITY
const AF_SNA = std.AF_SNA
const AF_TIPC = std.AF_TIPC
const AF_UNIX = std.AF_UNIX
const AF_UNSPEC = std.AF_UNSPEC
const AF_WANPIPE = std.AF_WANPIPE
const AF_X25 = std.AF_X25
const ARPHRD_ADAPT = std.ARPHRD_ADAPT
const ARPHRD_APPLETLK = std.ARPHRD_APPLETLK
const ARPHRD_ARCNET = std.ARPHRD_ARCNET
const ARPHRD_ASH = std.ARPHRD_ASH
const ARPHRD_ATM = std.ARPHRD_ATM
const ARPHRD_AX25 = std.ARPHRD_AX25
const ARPHRD_BIF = std.ARPHRD_BIF
const ARPHRD_CHAOS = std.ARPHRD_CHAOS
const ARPHRD_CISCO = std.ARPHRD_CISCO
const ARPHRD_CSLIP = std.ARPHRD_CSLIP
const ARPHRD_CSLIP6 = std.ARPHRD_CSLIP6
const ARPHRD_DDCMP = std.ARPHRD_DDCMP
const ARPHRD_DLCI = std.ARPHRD_DLCI
const ARPHRD_ECONET = std.ARPHRD_ECONET
const ARPHRD_EETHER = std.ARPHRD_EETHER
const ARPHRD_ETHER = std.ARPHRD_ETHER
const ARPHRD_EUI64 = std.ARPHRD_EUI64
const ARPHRD_FCAL = std.ARPHRD_FCAL
const ARPHRD_FCFABRIC = std.ARPHRD_FCFABRIC
const ARPHRD_FCPL = std.ARPHRD_FCPL
const ARPHRD_FCPP = std.ARPHRD_FCPP
const ARPHRD_FDDI = std.ARPHRD_FDDI
const ARPHRD_FRAD = std.ARPHRD_FRAD
const ARPHRD_HDLC = std.ARPHRD_HDLC
const ARPHRD_HIPPI = std.ARPHRD_HIPPI
const ARPHRD_HWX25 = std.ARPHRD_HWX25
const ARPHRD_IEEE1394 = std.ARPHRD_IEEE1394
const ARPHRD_IEEE802 = std.ARPHRD_IEEE802
const ARPHRD_IEEE80211 = std.ARPHRD_IEEE80211
const ARPHRD_IEEE80211_PRISM = std.ARPHRD_IEEE80211_PRISM
const ARPHRD_IEEE80211_RADIOTAP = std.ARPHRD_IEEE80211_RADIOTAP
const ARPHRD_IEEE802154 = std.ARPHRD_IEEE802154
const ARPHRD_IEEE802154_PHY = std.ARPHRD_IEEE802154_PHY
const ARPHRD_IEEE802_TR = std.ARPHRD_IEEE802_TR
const ARPHRD_INFINIBAND = std.ARPHRD_INFINIBAND
const ARPHRD_IPDDP = std.ARPHRD_IPDDP
const ARPHRD_IPGRE = std.ARPHRD_IPGRE
const ARPHRD_IRDA = std.ARPHRD_IRDA
const ARPHRD_LAPB = std.ARPHRD_LAPB
const ARPHRD_LOCALTLK = std.ARPHRD_LOCALTLK
const ARPHRD_LOOPBACK = std.ARPHRD_LOOPBACK
const ARPHRD_METRICOM = std.ARPHRD_METRICOM
const ARPHRD_NETROM = std.ARPHRD_NETROM
const ARPHRD_NONE = std.ARPHRD_NONE
const ARPHRD_PIMREG = std.ARPHRD_PIMREG
const ARPHRD_PPP = std.ARPHRD_PPP
const ARPHRD_PRONET = std.ARPHRD_PRONET
const ARPHRD_RAWHDLC = std.ARPHRD_RAWHDLC
const ARPHRD_ROSE = std.ARPHRD_ROSE
const ARPHRD_RSRVD = std.ARPHRD_RSRVD
const ARPHRD_SIT = std.ARPHRD_SIT
const ARPHRD_SKIP = std.ARPHRD_SKIP
const ARPHRD_SLIP = std.ARPHRD_SLIP
const ARPHRD_SLIP6 = std.ARPHRD_SLIP6
const ARPHRD_TUNNEL = std.ARPHRD_TUNNEL
const ARPHRD_TUNNEL6 = std.ARPHRD_TUNNEL6
const ARPHRD_VOID = std.ARPHRD_VOID
const ARPHRD_X25 = std.ARPHRD_X25

var Accept = std.Accept
var Accept4 = std.Accept4
var Access = std.Access
var Acct = std.Acct
var Adjtimex = std.Adjtimex
var AllThreadsSyscall = std.AllThreadsSyscall
var AllThreadsSyscall6 = std.AllThreadsSyscall6
var AttachLsf = std.AttachLsf

const B0 = std.B0
const B1000000 = std.B1000000
const B110 = std.B110
const B115200 = std.B115200
const B1152000 = std.B1152000
const B1200 = std.B1200
const B134 = std.B134
const B150 = std.B150
const B1500000 = std.B1500000
const B1800 = std.B1800
const B19200 = std.B19200
const B200 = std.B200
const B2000000 = std.B2000000
const B230400 = std.B230400
const B2400 = std.B2400
const B2500000 = std.B2500000
const B300 = std.B300
const B3000000 = std.B3000000
const B3500000 = std.B3500000
const B38400 = std.B38400
const B4000000 = std.B4000000
const B460800 = std.B460800
const B4800 = std.B4800
const B50 = std.B50
const B500000 = std.B500000
const B57600 = std.B57600
const B576000 = std.B576000
const B600 = std.B600
const B75 = std.B75
const B921600 = std.B921600
const B9600 = std.B9600
const BPF_A = std.BPF_A
const BPF_ABS = std.BPF_ABS
const BPF_ADD = std.BPF_ADD
const BPF_ALU = std.BPF_ALU
const BPF_AND = std.BPF_AND
const BPF_B = std.BPF_B
const BPF_DIV = std.BPF_DIV
const BPF_H = std.BPF_H
const BPF_IMM = std.BPF_IMM
const BPF_IND = std.BPF_IND
const BPF_JA = std.BPF_JA
const BPF_JEQ = std.BPF_JEQ
const BPF_JGE = std.BPF_JGE
const BPF_JGT = std.BPF_JGT
const BPF_JMP = std.BPF_JMP
const BPF_JSET = std.BPF_JSET
const BPF_K = std.BPF_K
const BPF_LD = std.BPF_LD
const BPF_LDX = std.BPF_LDX
const BPF_LEN = std.BPF_LEN
const BPF_LSH = std.BPF_LSH
const BPF_MAJOR_VERSION = std.BPF_MAJOR_VERSION
const BPF_MAXINSNS = std.BPF_MAXINSNS
const BPF_MEM = std.BPF_MEM
const BPF_MEMWORDS = std.BPF_MEMWORDS
const BPF_MINOR_VERSION = std.BPF_MINOR_VERSION
const BPF_MISC = std.BPF_MISC
const BPF_MSH = std.BPF_MSH
const BPF_MUL = std.BPF_MUL
const BPF_NEG = std.BPF_NEG
const BPF_OR = std.BPF_OR
const BPF_RET = std.BPF_RET
const BPF_RSH = std.BPF_RSH
const BPF_ST = std.BPF_ST
const BPF_STX = std.BPF_STX
const BPF_SUB = std.BPF_SUB
const BPF_TAX = std.BPF_TAX
const BPF_TXA = std.BPF_TXA
const BPF_W = std.BPF_W
const BPF_X = std.BPF_X
const BRKINT = std.BRKINT

var Bind = std.Bind
var BindToDevice = std.BindToDevice
var BytePtrFromString = std.BytePtrFromString
var ByteSliceFromString = std.ByteSliceFromString

const CLOCAL = std.CLOCAL
const CLONE_CHILD_CLEARTID = std.CLONE_CHILD_CLEARTID
const CLONE_CHILD_SETTID = std.CLONE_CHILD_SETTID
const CLONE_CLEAR_SIGHAND = std.CLONE_CLEAR_SIGHAND
const CLONE_DETACHED = std.CLONE_DETACHED
const CLONE_FILES = std.CLONE_FILES
const CLONE_FS = std.CLONE_FS
const CLONE_INTO_CGROUP = std.CLONE_INTO_CGROUP
const CLONE_IO = std.CLONE_IO
const CLONE_NEWCGROUP = std.CLONE_NEWCGROUP
const CLONE_NEWIPC = std.CLONE_NEWIPC
const CLONE_NEWNET = std.CLONE_NEWNET
const CLONE_NEWNS = std.CLONE_NEWNS
const CLONE_NEWPID = std.CLONE_NEWPID
const CLONE_NEWTIME = std.CLONE_NEWTIME
const CLONE_NEWUSER = std.CLONE_NEWUSER
const CLONE_NEWUTS = std.CLONE_NEWUTS
const CLONE_PARENT = std.CLONE_PARENT
const CLONE_PARENT_SETTID = std.CLONE_PARENT_SETTID
const CLONE_PIDFD = std.CLONE_PIDFD
const CLONE_PTRACE = std.CLONE_PTRACE
const CLONE_SETTLS = std.CLONE_SETTLS
const CLONE_SIGHAND = std.CLONE_SIGHAND
const CLONE_SYSVSEM = std.CLONE_SYSVSEM
const CLONE_THREAD = std.CLONE_THREAD
const CLONE_UNTRACED = std.CLONE_UNTRACED
const CLONE_VFORK = std.CLONE_VFORK
const CLONE_VM = std.CLONE_VM
const CREAD = std.CREAD
const CS5 = std.CS5
const CS6 = std.CS6
const CS7 = std.CS7
const CS8 = std.CS8
const CSIZE = std.CSIZE
const CSTOPB = std.CSTOPB

var Chdir = std.Chdir
var Chmod = std.Chmod
var Chown = std.Chown
var Chroot = std.Chroot
var Clearenv = std.Clearenv
var Close = std.Close
var CloseOnExec = std.CloseOnExec
var CmsgLen = std.CmsgLen
var CmsgSpace = std.CmsgSpace

type Cmsghdr = std.Cmsghdr
type Conn = std.Conn

var Connect = std.Connect
var Creat = std.Creat

type Credential = std.Credential

const DT_BLK = std.DT_BLK
const DT_CHR = std.DT_CHR
const DT_DIR = std.DT_DIR
const DT_FIFO = std.DT_FIFO
const DT_LNK = std.DT_LNK
const DT_REG = std.DT_REG
const DT_SOCK = std.DT_SOCK
const DT_UNKNOWN = std.DT_UNKNOWN
const DT_WHT = std.DT_WHT

var DetachLsf = std.DetachLsf

type Dirent = std.Dirent

var Dup = std.Dup
var Dup2 = std.Dup2
var Dup3 = std.Dup3

const E2BIG = std.E2BIG
const EACCES = std.EACCES
const EADDRINUSE = std.EADDRINUSE
const EADDRNOTAVAIL = std.EADDRNOTAVAIL
const EADV = std.EADV
const EAFNOSUPPORT = std.EAFNOSUPPORT
const EAGAIN = std.EAGAIN
const EALREADY = std.EALREADY
const EBADE = std.EBADE
const EBADF = std.EBADF
const EBADFD = std.EBADFD
const EBADMSG = std.EBADMSG
const EBADR = std.EBADR
const EBADRQC = std.EBADRQC
const EBADSLT = std.EBADSLT
const EBFONT = std.EBFONT
const EBUSY = std.EBUSY
const ECANCELED = std.ECANCELED
const ECHILD = std.ECHILD
const ECHO = std.ECHO
const ECHOCTL = std.ECHOCTL
const ECHOE = std.ECHOE
const ECHOK = std.ECHOK
const ECHOKE = std.ECHOKE
const ECHONL = std.ECHONL
const ECHOPRT = std.ECHOPRT
const ECHRNG = std.ECHRNG
const ECOMM = std.ECOMM
const ECONNABORTED = std.ECONNABORTED
const ECONNREFUSED = std.ECONNREFUSED
const ECONNRESET = std.ECONNRESET
const EDEADLK = std.EDEADLK
const EDEADLOCK = std.EDEADLOCK
const EDESTADDRREQ = std.EDESTADDRREQ
const EDOM = std.EDOM
const EDOTDOT = std.EDOTDOT
const EDQUOT = std.EDQUOT
const EEXIST = std.EEXIST
const EFAULT = std.EFAULT
const EFBIG = std.EFBIG
const EHOSTDOWN = std.EHOSTDOWN
const EHOSTUNREACH = std.EHOSTUNREACH
const EIDRM = std.EIDRM
const EILSEQ = std.EILSEQ
const EINPROGRESS = std.EINPROGRESS
const EINTR = std.EINTR
const EINVAL = std.EINVAL
const EIO = std.EIO
const EISCONN = std.EISCONN
const EISDIR = std.EISDIR
const EISNAM = std.EISNAM
const EKEYEXPIRED = std.EKEYEXPIRED
const EKEYREJECTED = std.EKEYREJECTED
const EKEYREVOKED = std.EKEYREVOKED
const EL2HLT = std.EL2HLT
const EL2NSYNC = std.EL2NSYNC
const EL3HLT = std.EL3HLT
const EL3RST = std.EL3RST
const ELIBACC = std.ELIBACC
const ELIBBAD = std.ELIBBAD
const ELIBEXEC = std.ELIBEXEC
const ELIBMAX = std.ELIBMAX
const ELIBSCN = std.ELIBSCN
const ELNRNG = std.ELNRNG
const ELOOP = std.ELOOP
const EMEDIUMTYPE = std.EMEDIUMTYPE
const EMFILE = std.EMFILE
const EMLINK = std.EMLINK
const EMSGSIZE = std.EMSGSIZE
const EMULTIHOP = std.EMULTIHOP
const ENAMETOOLONG = std.ENAMETOOLONG
const ENAVAIL = std.ENAVAIL
const ENETDOWN = std.ENETDOWN
const ENETRESET = std.ENETRESET
const ENETUNREACH = std.ENETUNREACH
const ENFILE = std.ENFILE
const ENOANO = std.ENOANO
const ENOBUFS = std.ENOBUFS
const ENOCSI = std.ENOCSI
const ENODATA = std.ENODATA
const ENODEV = std.ENODEV
const ENOENT = std.ENOENT
const ENOEXEC = std.ENOEXEC
const ENOKEY = std.ENOKEY
const ENOLCK = std.ENOLCK
const ENOLINK = std.ENOLINK
const ENOMEDIUM = std.ENOMEDIUM
const ENOMEM = std.ENOMEM
const ENOMSG = std.ENOMSG
const ENONET = std.ENONET
const ENOPKG = std.ENOPKG
const ENOPROTOOPT = std.ENOPROTOOPT
const ENOSPC = std.ENOSPC
const ENOSR = std.ENOSR
const ENOSTR = std.ENOSTR
const ENOSYS = std.ENOSYS
const ENOTBLK = std.ENOTBLK
const ENOTCONN = std.ENOTCONN
const ENOTDIR = std.ENOTDIR
const ENOTEMPTY = std.ENOTEMPTY
const ENOTNAM = std.ENOTNAM
const ENOTRECOVERABLE = std.ENOTRECOVERABLE
const ENOTSOCK = std.ENOTSOCK
const ENOTSUP = std.ENOTSUP
const ENOTTY = std.ENOTTY
const ENOTUNIQ = std.ENOTUNIQ
const ENXIO = std.ENXIO
const EOPNOTSUPP = std.EOPNOTSUPP
const EOVERFLOW = std.EOVERFLOW
const EOWNERDEAD = std.EOWNERDEAD
const EPERM = std.EPERM
const EPFNOSUPPORT = std.EPFNOSUPPORT
const EPIPE = std.EPIPE
const EPOLLERR = std.EPOLLERR
const EPOLLET = std.EPOLLET
const EPOLLHUP = std.EPOLLHUP
const EPOLLIN = std.EPOLLIN
const EPOLLMSG = std.EPOLLMSG
const EPOLLONESHOT = std.EPOLLONESHOT
const EPOLLOUT = std.EPOLLOUT
const EPOLLPRI = std.EPOLLPRI
const EPOLLRDBAND = std.EPOLLRDBAND
const EPOLLRDHUP = std.EPOLLRDHUP
const EPOLLRDNORM = std.EPOLLRDNORM
const EPOLLWRBAND = std.EPOLLWRBAND
const EPOLLWRNORM = std.EPOLLWRNORM
const EPOLL_CLOEXEC = std.EPOLL_CLOEXEC
const EPOLL_CTL_ADD = std.EPOLL_CTL_ADD
const EPOLL_CTL_DEL = std.EPOLL_CTL_DEL
const EPOLL_CTL_MOD = std.EPOLL_CTL_MOD
const EPOLL_NONBLOCK = std.EPOLL_NONBLOCK
const EPROTO = std.EPROTO
const EPROTONOSUPPORT = std.EPROTONOSUPPORT
const EPROTOTYPE = std.EPROTOTYPE
const ERANGE = std.ERANGE
const EREMCHG = std.EREMCHG
const EREMOTE = std.EREMOTE
const EREMOTEIO = std.EREMOTEIO
const ERESTART = std.ERESTART
const ERFKILL = std.ERFKILL
const EROFS = std.EROFS
const ESHUTDOWN = std.ESHUTDOWN
const ESOCKTNOSUPPORT = std.ESOCKTNOSUPPORT
const ESPIPE = std.ESPIPE
const ESRCH = std.ESRCH
const ESRMNT = std.ESRMNT
const ESTALE = std.ESTALE
const ESTRPIPE = std.ESTRPIPE
const ETH_P_1588 = std.ETH_P_1588
const ETH_P_8021Q = std.ETH_P_8021Q
const ETH_P_802_2 = std.ETH_P_802_2
const ETH_P_802_3 = std.ETH_P_802_3
const ETH_P_AARP = std.ETH_P_AARP
const ETH_P_ALL = std.ETH_P_ALL
const ETH_P_AOE = std.ETH_P_AOE
const ETH_P_ARCNET = std.ETH_P_ARCNET
const ETH_P_ARP = std.ETH_P_ARP
const ETH_P_ATALK = std.ETH_P_ATALK
const ETH_P_ATMFATE = std.ETH_P_ATMFATE
const ETH_P_ATMMPOA = std.ETH_P_ATMMPOA
const ETH_P_AX25 = std.ETH_P_AX25
const ETH_P_BPQ = std.ETH_P_BPQ
const ETH_P_CAIF = std.ETH_P_CAIF
const ETH_P_CAN = std.ETH_P_CAN
const ETH_P_CONTROL = std.ETH_P_CONTROL
const ETH_P_CUST = std.ETH_P_CUST
const ETH_P_DDCMP = std.ETH_P_DDCMP
const ETH_P_DEC = std.ETH_P_DEC
const ETH_P_DIAG = std.ETH_P_DIAG
const ETH_P_DNA_DL = std.ETH_P_DNA_DL
const ETH_P_DNA_RC = std.ETH_P_DNA_RC
const ETH_P_DNA_RT = std.ETH_P_DNA_RT
const ETH_P_DSA = std.ETH_P_DSA
const ETH_P_ECONET = std.ETH_P_ECONET
const ETH_P_EDSA = std.ETH_P_EDSA
const ETH_P_FCOE = std.ETH_P_FCOE
const ETH_P_FIP = std.ETH_P_FIP
const ETH_P_HDLC = std.ETH_P_HDLC
const ETH_P_IEEE802154 = std.ETH_P_IEEE802154
const ETH_P_IEEEPUP = std.ETH_P_IEEEPUP
const ETH_P_IEEEPUPAT = std.ETH_P_IEEEPUPAT
const ETH_P_IP = std.ETH_P_IP
const ETH_P_IPV6 = std.ETH_P_IPV6
const ETH_P_IPX = std.ETH_P_IPX
const ETH_P_IRDA = std.ETH_P_IRDA
const ETH_P_LAT = std.ETH_P_LAT
const ETH_P_LINK_CTL = std.ETH_P_LINK_CTL
const ETH_P_LOCALTALK = std.ETH_P_LOCALTALK
const ETH_P_LOOP = std.ETH_P_LOOP
const ETH_P_MOBITEX = std.ETH_P_MOBITEX
const ETH_P_MPLS_MC = std.ETH_P_MPLS_MC
const ETH_P_MPLS_UC = std.ETH_P_MPLS_UC
const ETH_P_PAE = std.ETH_P_PAE
const ETH_P_PAUSE = std.ETH_P_PAUSE
const ETH_P_PHONET = std.ETH_P_PHONET
const ETH_P_PPPTALK = std.ETH_P_PPPTALK
const ETH_P_PPP_DISC = std.ETH_P_PPP_DISC
const ETH_P_PPP_MP = std.ETH_P_PPP_MP
const ETH_P_PPP_SES = std.ETH_P_PPP_SES
const ETH_P_PUP = std.ETH_P_PUP
const ETH_P_PUPAT = std.ETH_P_PUPAT
const ETH_P_RARP = std.ETH_P_RARP
const ETH_P_SCA = std.ETH_P_SCA
const ETH_P_SLOW = std.ETH_P_SLOW
const ETH_P_SNAP = std.ETH_P_SNAP
const ETH_P_TEB = std.ETH_P_TEB
const ETH_P_TIPC = std.ETH_P_TIPC
const ETH_P_TRAILER = std.ETH_P_TRAILER
const ETH_P_TR_802_2 = std.ETH_P_TR_802_2
const ETH_P_WAN_PPP = std.ETH_P_WAN_PPP
const ETH_P_WCCP = std.ETH_P_WCCP
const ETH_P_X25 = std.ETH_P_X25
const ETIME = std.ETIME
const ETIMEDOUT = std.ETIMEDOUT
const ETOOMANYREFS = std.ETOOMANYREFS
const ETXTBSY = std.ETXTBSY
const EUCLEAN = std.EUCLEAN
const EUNATCH = std.EUNATCH
const EUSERS = std.EUSERS
const EWOULDBLOCK = std.EWOULDBLOCK
const EXDEV = std.EXDEV
const EXFULL = std.EXFULL

var Environ = std.Environ
var EpollCreate = std.EpollCreate
var EpollCreate1 = std.EpollCreate1
var EpollCtl = std.EpollCtl

type EpollEvent = std.EpollEvent

var EpollWait = std.EpollWait

type Errno = std.Errno

var Exec = std.Exec

const FD_CLOEXEC = std.FD_CLOEXEC
const FD_SETSIZE = std.FD_SETSIZE
const FLUSHO = std.FLUSHO
const F_DUPFD = std.F_DUPFD
const F_DUPFD_CLOEXEC = std.F_DUPFD_CLOEXEC
const F_EXLCK = std.F_EXLCK
const F_GETFD = std.F_GETFD
const F_GETFL = std.F_GETFL
const F_GETLEASE = std.F_GETLEASE
const F_GETLK = std.F_GETLK
const F_GETLK64 = std.F_GETLK64
const F_GETOWN = std.F_GETOWN
const F_GETOWN_EX = std.F_GETOWN_EX
const F_GETPIPE_SZ = std.F_GETPIPE_SZ
const F_GETSIG = std.F_GETSIG
const F_LOCK = std.F_LOCK
const F_NOTIFY = std.F_NOTIFY
const F_OK = std.F_OK
const F_RDLCK = std.F_RDLCK
const F_SETFD = std.F_SETFD
const F_SETFL = std.F_SETFL
const F_SETLEASE = std.F_SETLEASE
const F_SETLK = std.F_SETLK
const F_SETLK64 = std.F_SETLK64
const F_SETLKW = std.F_SETLKW
const F_SETLKW64 = std.F_SETLKW64
const F_SETOWN = std.F_SETOWN
const F_SETOWN_EX = std.F_SETOWN_EX
const F_SETPIPE_SZ = std.F_SETPIPE_SZ
const F_SETSIG = std.F_SETSIG
const F_SHLCK = std.F_SHLCK
const F_TEST = std.F_TEST
const F_TLOCK = std.F_TLOCK
const F_ULOCK = std.F_ULOCK
const F_UNLCK = std.F_UNLCK
const F_WRLCK = std.F_WRLCK

var Faccessat = std.Faccessat
var Fallocate = std.Fallocate
var Fchdir = std.Fchdir
var Fchmod = std.Fchmod
var Fchmodat = std.Fchmodat
var Fchown = std.Fchown
var Fchownat = std.Fchownat
var FcntlFlock = std.FcntlFlock

type FdSet = std.FdSet
type Flock_t = std.Flock_t

var ForkExec = std.ForkExec
var ForkLock = std.ForkLock

type Fsid = std.Fsid

var Fstatfs = std.Fstatfs
var Ftruncate = std.Ftruncate
var Futimes = std.Futimes
var Futimesat = std.Futimesat
var Getcwd = std.Getcwd
var Getdents = std.Getdents
var Getenv = std.Getenv
var Getgroups = std.Getgroups
var Getpagesize = std.Getpagesize
var Getpeername = std.Getpeername
var Getpgid = std.Getpgid
var Getpgrp = std.Getpgrp
var Getppid = std.Getppid
var Getpriority = std.Getpriority
var Getrlimit = std.Getrlimit
var Getrusage = std.Getrusage
var Getsockname = std.Getsockname
var GetsockoptICMPv6Filter = std.GetsockoptICMPv6Filter
var GetsockoptIPMreq = std.GetsockoptIPMreq
var GetsockoptIPMreqn = std.GetsockoptIPMreqn
var GetsockoptIPv6MTUInfo = std.GetsockoptIPv6MTUInfo
var GetsockoptIPv6Mreq = std.GetsockoptIPv6Mreq
var GetsockoptInet4Addr = std.GetsockoptInet4Addr
var GetsockoptInt = std.GetsockoptInt
var GetsockoptUcred = std.GetsockoptUcred
var Gettid = std.Gettid
var Gettimeofday = std.Gettimeofday
var Getwd = std.Getwd
var Getxattr = std.Getxattr

const HUPCL = std.HUPCL
const ICANON = std.ICANON
const ICMPV6_FILTER = std.ICMPV6_FILTER

type ICMPv6Filter = std.ICMPv6Filter

const ICRNL = std.ICRNL
const IEXTEN = std.IEXTEN
const IFA_ADDRESS = std.IFA_ADDRESS
const IFA_ANYCAST = std.IFA_ANYCAST
const IFA_BROADCAST = std.IFA_BROADCAST
const IFA_CACHEINFO = std.IFA_CACHEINFO
const IFA_F_DADFAILED = std.IFA_F_DADFAILED
const IFA_F_DEPRECATED = std.IFA_F_DEPRECATED
const IFA_F_HOMEADDRESS = std.IFA_F_HOMEADDRESS
const IFA_F_NODAD = std.IFA_F_NODAD
const IFA_F_OPTIMISTIC = std.IFA_F_OPTIMISTIC
const IFA_F_PERMANENT = std.IFA_F_PERMANENT
const IFA_F_SECONDARY = std.IFA_F_SECONDARY
const IFA_F_TEMPORARY = std.IFA_F_TEMPORARY
const IFA_F_TENTATIVE = std.IFA_F_TENTATIVE
const IFA_LABEL = std.IFA_LABEL
const IFA_LOCAL = std.IFA_LOCAL
const IFA_MAX = std.IFA_MAX
const IFA_MULTICAST = std.IFA_MULTICAST
const IFA_UNSPEC = std.IFA_UNSPEC
const IFF_ALLMULTI = std.IFF_ALLMULTI
const IFF_AUTOMEDIA = std.IFF_AUTOMEDIA
const IFF_BROADCAST = std.IFF_BROADCAST
const IFF_DEBUG = std.IFF_DEBUG
const IFF_DYNAMIC = std.IFF_DYNAMIC
const IFF_LOOPBACK = std.IFF_LOOPBACK
const IFF_MASTER = std.IFF_MASTER
const IFF_MULTICAST = std.IFF_MULTICAST
const IFF_NOARP = std.IFF_NOARP
const IFF_NOTRAILERS = std.IFF_NOTRAILERS
const IFF_NO_PI = std.IFF_NO_PI
const IFF_ONE_QUEUE = std.IFF_ONE_QUEUE
const IFF_POINTOPOINT = std.IFF_POINTOPOINT
const IFF_PORTSEL = std.IFF_PORTSEL
const IFF_PROMISC = std.IFF_PROMISC
const IFF_RUNNING = std.IFF_RUNNING
const IFF_SLAVE = std.IFF_SLAVE
const IFF_TAP = std.IFF_TAP
const IFF_TUN = std.IFF_TUN
const IFF_TUN_EXCL = std.IFF_TUN_EXCL
const IFF_UP = std.IFF_UP
const IFF_VNET_HDR = std.IFF_VNET_HDR
const IFLA_ADDRESS = std.IFLA_ADDRESS
const IFLA_BROADCAST = std.IFLA_BROADCAST
const IFLA_COST = std.IFLA_COST
const IFLA_IFALIAS = std.IFLA_IFALIAS
const IFLA_IFNAME = std.IFLA_IFNAME
const IFLA_LINK = std.IFLA_LINK
const IFLA_LINKINFO = std.IFLA_LINKINFO
const IFLA_LINKMODE = std.IFLA_LINKMODE
const IFLA_MAP = std.IFLA_MAP
const IFLA_MASTER = std.IFLA_MASTER
const IFLA_MAX = std.IFLA_MAX
const IFLA_MTU = std.IFLA_MTU
const IFLA_NET_NS_PID = std.IFLA_NET_NS_PID
const IFLA_OPERSTATE = std.IFLA_OPERSTATE
const IFLA_PRIORITY = std.IFLA_PRIORITY
const IFLA_PROTINFO = std.IFLA_PROTINFO
const IFLA_QDISC = std.IFLA_QDISC
const IFLA_STATS = std.IFLA_STATS
const IFLA_TXQLEN = std.IFLA_TXQLEN
const IFLA_UNSPEC = std.IFLA_UNSPEC
const IFLA_WEIGHT = std.IFLA_WEIGHT
const IFLA_WIRELESS = std.IFLA_WIRELESS
const IFNAMSIZ = std.IFNAMSIZ
const IGNBRK = std.IGNBRK
const IGNCR = std.IGNCR
const IGNPAR = std.IGNPAR
const IMAXBEL = std.IMAXBEL
const INLCR = std.INLCR
const INPCK = std.INPCK
const IN_ACCESS = std.IN_ACCESS
const IN_ALL_EVENTS = std.IN_ALL_EVENTS
const IN_ATTRIB = std.IN_ATTRIB
const IN_CLASSA_HOST = std.IN_CLASSA_HOST
const IN_CLASSA_MAX = std.IN_CLASSA_MAX
const IN_CLASSA_NET = std.IN_CLASSA_NET
const IN_CLASSA_NSHIFT = std.IN_CLASSA_NSHIFT
const IN_CLASSB_HOST = std.IN_CLASSB_HOST
const IN_CLASSB_MAX = std.IN_CLASSB_MAX
const IN_CLASSB_NET = std.IN_CLASSB_NET
const IN_CLASSB_NSHIFT = std.IN_CLASSB_NSHIFT
const IN_CLASSC_HOST = std.IN_CLASSC_HOST
const IN_CLASSC_NET = std.IN_CLASSC_NET
const IN_CLASSC_NSHIFT = std.IN_CLASSC_NSHIFT
const IN_CLOEXEC = std.IN_CLOEXEC
const IN_CLOSE = std.IN_CLOSE
const IN_CLOSE_NOWRITE = std.IN_CLOSE_NOWRITE
const IN_CLOSE_WRITE = std.IN_CLOSE_WRITE
const IN_CREATE = std.IN_CREATE
const IN_DELETE = std.IN_DELETE
const IN_DELETE_SELF = std.IN_DELETE_SELF
const IN_DONT_FOLLOW = std.IN_DONT_FOLLOW
const IN_EXCL_UNLINK = std.IN_EXCL_UNLINK
const IN_IGNORED = std.IN_IGNORED
const IN_ISDIR = std.IN_ISDIR
const IN_LOOPBACKNET = std.IN_LOOPBACKNET
const IN_MASK_ADD = std.IN_MASK_ADD
const IN_MODIFY = std.IN_MODIFY
const IN_MOVE = std.IN_MOVE
const IN_MOVED_FROM = std.IN_MOVED_FROM
const IN_MOVED_TO = std.IN_MOVED_TO
const IN_MOVE_SELF = std.IN_MOVE_SELF
const IN_NONBLOCK = std.IN_NONBLOCK
const IN_ONESHOT = std.IN_ONESHOT
const IN_ONLYDIR = std.IN_ONLYDIR
const IN_OPEN = std.IN_OPEN
const IN_Q_OVERFLOW = std.IN_Q_OVERFLOW
const IN_UNMOUNT = std.IN_UNMOUNT

type IPMreq = std.IPMreq
type IPMreqn = std.IPMreqn

const IPPROTO_AH = std.IPPROTO_AH
const IPPROTO_COMP = std.IPPROTO_COMP
const IPPROTO_DCCP = std.IPPROTO_DCCP
const IPPROTO_DSTOPTS = std.IPPROTO_DSTOPTS
const IPPROTO_EGP = std.IPPROTO_EGP
const IPPROTO_ENCAP = std.IPPROTO_ENCAP
const IPPROTO_ESP = std.IPPROTO_ESP
const IPPROTO_FRAGMENT = std.IPPROTO_FRAGMENT
const IPPROTO_GRE = std.IPPROTO_GRE
const IPPROTO_HOPOPTS = std.IPPROTO_HOPOPTS
const IPPROTO_ICMP = std.IPPROTO_ICMP
const IPPROTO_ICMPV6 = std.IPPROTO_ICMPV6
const IPPROTO_IDP = std.IPPROTO_IDP
const IPPROTO_IGMP = std.IPPROTO_IGMP
const IPPROTO_IP = std.IPPROTO_IP
const IPPROTO_IPIP = std.IPPROTO_IPIP
const IPPROTO_IPV6 = std.IPPROTO_IPV6
const IPPROTO_MTP = std.IPPROTO_MTP
const IPPROTO_NONE = std.IPPROTO_NONE
const IPPROTO_PIM = std.IPPROTO_PIM
const IPPROTO_PUP = std.IPPROTO_PUP
const IPPROTO_RAW = std.IPPROTO_RAW
const IPPROTO_ROUTING = std.IPPROTO_ROUTING
const IPPROTO_RSVP = std.IPPROTO_RSVP
const IPPROTO_SCTP = std.IPPROTO_SCTP
const IPPROTO_TCP = std.IPPROTO_TCP
const IPPROTO_TP = std.IPPROTO_TP
const IPPROTO_UDP = std.IPPROTO_UDP
const IPPROTO_UDPLITE = std.IPPROTO_UDPLITE
const IPV6_2292DSTOPTS = std.IPV6_2292DSTOPTS
const IPV6_2292HOPLIMIT = std.IPV6_2292HOPLIMIT
const IPV6_2292HOPOPTS = std.IPV6_2292HOPOPTS
const IPV6_2292PKTINFO = std.IPV6_2292PKTINFO
const IPV6_2292PKTOPTIONS = std.IPV6_2292PKTOPTIONS
const IPV6_2292RTHDR = std.IPV6_2292RTHDR
const IPV6_ADDRFORM = std.IPV6_ADDRFORM
const IPV6_ADD_MEMBERSHIP = std.IPV6_ADD_MEMBERSHIP
const IPV6_AUTHHDR = std.IPV6_AUTHHDR
const IPV6_CHECKSUM = std.IPV6_CHECKSUM
const IPV6_DROP_MEMBERSHIP = std.IPV6_DROP_MEMBERSHIP
const IPV6_DSTOPTS = std.IPV6_DSTOPTS
const IPV6_HOPLIMIT = std.IPV6_HOPLIMIT
const IPV6_HOPOPTS = std.IPV6_HOPOPTS
const IPV6_IPSEC_POLICY = std.IPV6_IPSEC_POLICY
const IPV6_JOIN_ANYCAST = std.IPV6_JOIN_ANYCAST
const IPV6_JOIN_GROUP = std.IPV6_JOIN_GROUP
const IPV6_LEAVE_ANYCAST = std.IPV6_LEAVE_ANYCAST
const IPV6_LEAVE_GROUP = std.IPV6_LEAVE_GROUP
const IPV6_MTU = std.IPV6_MTU
const IPV6_MTU_DISCOVER = std.IPV6_MTU_DISCOVER
const IPV6_MULTICAST_HOPS = std.IPV6_MULTICAST_HOPS
const IPV6_MULTICAST_IF = std.IPV6_MULTICAST_IF
const IPV6_MULTICAST_LOOP = std.IPV6_MULTICAST_LOOP
const IPV6_NEXTHOP = std.IPV6_NEXTHOP
const IPV6_PKTINFO = std.IPV6_PKTINFO
const IPV6_PMTUDISC_DO = std.IPV6_PMTUDISC_DO
const IPV6_PMTUDISC_DONT = std.IPV6_PMTUDISC_DONT
const IPV6_PMTUDISC_PROBE = std.IPV6_PMTUDISC_PROBE
const IPV6_PMTUDISC_WANT = std.IPV6_PMTUDISC_WANT
const IPV6_RECVDSTOPTS = std.IPV6_RECVDSTOPTS
const IPV6_RECVERR = std.IPV6_RECVERR
const IPV6_RECVHOPLIMIT = std.IPV6_RECVHOPLIMIT
const IPV6_RECVHOPOPTS = std.IPV6_RECVHOPOPTS
const IPV6_RECVPKTINFO = std.IPV6_RECVPKTINFO
const IPV6_RECVRTHDR = std.IPV6_RECVRTHDR
const IPV6_RECVTCLASS = std.IPV6_RECVTCLASS
const IPV6_ROUTER_ALERT = std.IPV6_ROUTER_ALERT
const IPV6_RTHDR = std.IPV6_RTHDR
const IPV6_RTHDRDSTOPTS = std.IPV6_RTHDRDSTOPTS
const IPV6_RTHDR_LOOSE = std.IPV6_RTHDR_LOOSE
const IPV6_RTHDR_STRICT = std.IPV6_RTHDR_STRICT
const IPV6_RTHDR_TYPE_0 = std.IPV6_RTHDR_TYPE_0
const IPV6_RXDSTOPTS = std.IPV6_RXDSTOPTS
const IPV6_RXHOPOPTS = std.IPV6_RXHOPOPTS
const IPV6_TCLASS = std.IPV6_TCLASS
const IPV6_UNICAST_HOPS = std.IPV6_UNICAST_HOPS
const IPV6_V6ONLY = std.IPV6_V6ONLY
const IPV6_XFRM_POLICY = std.IPV6_XFRM_POLICY
const IP_ADD_MEMBERSHIP = std.IP_ADD_MEMBERSHIP
const IP_ADD_SOURCE_MEMBERSHIP = std.IP_ADD_SOURCE_MEMBERSHIP
const IP_BLOCK_SOURCE = std.IP_BLOCK_SOURCE
const IP_DEFAULT_MULTICAST_LOOP = std.IP_DEFAULT_MULTICAST_LOOP
const IP_DEFAULT_MULTICAST_TTL = std.IP_DEFAULT_MULTICAST_TTL
const IP_DF = std.IP_DF
const IP_DROP_MEMBERSHIP = std.IP_DROP_MEMBERSHIP
const IP_DROP_SOURCE_MEMBERSHIP = std.IP_DROP_SOURCE_MEMBERSHIP
const IP_FREEBIND = std.IP_FREEBIND
const IP_HDRINCL = std.IP_HDRINCL
const IP_IPSEC_POLICY = std.IP_IPSEC_POLICY
const IP_MAXPACKET = std.IP_MAXPACKET
const IP_MAX_MEMBERSHIPS = std.IP_MAX_MEMBERSHIPS
const IP_MF = std.IP_MF
const IP_MINTTL = std.IP_MINTTL
const IP_MSFILTER = std.IP_MSFILTER
const IP_MSS = std.IP_MSS
const IP_MTU = std.IP_MTU
const IP_MTU_DISCOVER = std.IP_MTU_DISCOVER
const IP_MULTICAST_IF = std.IP_MULTICAST_IF
const IP_MULTICAST_LOOP = std.IP_MULTICAST_LOOP
const IP_MULTICAST_TTL = std.IP_MULTICAST_TTL
const IP_OFFMASK = std.IP_OFFMASK
const IP_OPTIONS = std.IP_OPTIONS
const IP_ORIGDSTADDR = std.IP_ORIGDSTADDR
const IP_PASSSEC = std.IP_PASSSEC
const IP_PKTINFO = std.IP_PKTINFO
const IP_PKTOPTIONS = std.IP_PKTOPTIONS
const IP_PMTUDISC = std.IP_PMTUDISC
const IP_PMTUDISC_DO = std.IP_PMTUDISC_DO
const IP_PMTUDISC_DONT = std.IP_PMTUDISC_DONT
const IP_PMTUDISC_PROBE = std.IP_PMTUDISC_PROBE
const IP_PMTUDISC_WANT = std.IP_PMTUDISC_WANT
const IP_RECVERR = std.IP_RECVERR
const IP_RECVOPTS = std.IP_RECVOPTS
const IP_RECVORIGDSTADDR = std.IP_RECVORIGDSTADDR
const IP_RECVRETOPTS = std.IP_RECVRETOPTS
const IP_RECVTOS = std.IP_RECVTOS
const IP_RECVTTL = std.IP_RECVTTL
const IP_RETOPTS = std.IP_RETOPTS
const IP_RF = std.IP_RF
const IP_ROUTER_ALERT = std.IP_ROUTER_ALERT
const IP_TOS = std.IP_TOS
const IP_TRANSPARENT = std.IP_TRANSPARENT
const IP_TTL = std.IP_TTL
const IP_UNBLOCK_SOURCE = std.IP_UNBLOCK_SOURCE
const IP_XFRM_POLICY = std.IP_XFRM_POLICY

type IPv6MTUInfo = std.IPv6MTUInfo
type IPv6Mreq = std.IPv6Mreq

const ISIG = std.ISIG
const ISTRIP = std.ISTRIP
const IUCLC = std.IUCLC
const IUTF8 = std.IUTF8
const IXANY = std.IXANY
const IXOFF = std.IXOFF
const IXON = std.IXON

type IfAddrmsg = std.IfAddrmsg
type IfInfomsg = std.IfInfomsg

const ImplementsGetwd = std.ImplementsGetwd

type Inet4Pktinfo = std.Inet4Pktinfo
type Inet6Pktinfo = std.Inet6Pktinfo

var InotifyAddWatch = std.InotifyAddWatch

type InotifyEvent = std.InotifyEvent

var InotifyInit = std.InotifyInit
var InotifyInit1 = std.InotifyInit1
var InotifyRmWatch = std.InotifyRmWatch
var Ioperm = std.Ioperm
var Iopl = std.Iopl

type Iovec = std.Iovec

var Klogctl = std.Klogctl

const LINUX_REBOOT_CMD_CAD_OFF = std.LINUX_REBOOT_CMD_CAD_OFF
const LINUX_REBOOT_CMD_CAD_ON = std.LINUX_REBOOT_CMD_CAD_ON
const LINUX_REBOOT_CMD_HALT = std.LINUX_REBOOT_CMD_HALT
const LINUX_REBOOT_CMD_KEXEC = std.LINUX_REBOOT_CMD_KEXEC
const LINUX_REBOOT_CMD_POWER_OFF = std.LINUX_REBOOT_CMD_POWER_OFF
const LINUX_REBOOT_CMD_RESTART = std.LINUX_REBOOT_CMD_RESTART
const LINUX_REBOOT_CMD_RESTART2 = std.LINUX_REBOOT_CMD_RESTART2
const LINUX_REBOOT_CMD_SW_SUSPEND = std.LINUX_REBOOT_CMD_SW_SUSPEND
const LINUX_REBOOT_MAGIC1 = std.LINUX_REBOOT_MAGIC1
const LINUX_REBOOT_MAGIC2 = std.LINUX_REBOOT_MAGIC2
const LOCK_EX = std.LOCK_EX
const LOCK_NB = std.LOCK_NB
const LOCK_SH = std.LOCK_SH
const LOCK_UN = std.LOCK_UN

var Lchown = std.Lchown

type Linger = std.Linger

var Listen = std.Listen
var Listxattr = std.Listxattr
var LsfJump = std.LsfJump
var LsfSocket = std.LsfSocket
var LsfStmt = std.LsfStmt

const MADV_DOFORK = std.MADV_DOFORK
const MADV_DONTFORK = std.MADV_DONTFORK
const MADV_DONTNEED = std.MADV_DONTNEED
const MADV_HUGEPAGE = std.MADV_HUGEPAGE
const MADV_HWPOISON = std.MADV_HWPOISON
const MADV_MERGEABLE = std.MADV_MERGEABLE
const MADV_NOHUGEPAGE = std.MADV_NOHUGEPAGE
const MADV_NORMAL = std.MADV_NORMAL
const MADV_RANDOM = std.MADV_RANDOM
const MADV_REMOVE = std.MADV_REMOVE
const MADV_SEQUENTIAL = std.MADV_SEQUENTIAL
const MADV_UNMERGEABLE = std.MADV_UNMERGEABLE
const MADV_WILLNEED = std.MADV_WILLNEED
const MAP_32BIT = std.MAP_32BIT
const MAP_ANON = std.MAP_ANON
const MAP_ANONYMOUS = std.MAP_ANONYMOUS
const MAP_DENYWRITE = std.MAP_DENYWRITE
const MAP_EXECUTABLE = std.MAP_EXECUTABLE
const MAP_FILE = std.MAP_FILE
const MAP_FIXED = std.MAP_FIXED
const MAP_GROWSDOWN = std.MAP_GROWSDOWN
const MAP_HUGETLB = std.MAP_HUGETLB
const MAP_LOCKED = std.MAP_LOCKED
const MAP_NONBLOCK = std.MAP_NONBLOCK
const MAP_NORESERVE = std.MAP_NORESERVE
const MAP_POPULATE = std.MAP_POPULATE
const MAP_PRIVATE = std.MAP_PRIVATE
const MAP_SHARED = std.MAP_SHARED
const MAP_STACK = std.MAP_STACK
const MAP_TYPE = std.MAP_TYPE
const MCL_CURRENT = std.MCL_CURRENT
const MCL_FUTURE = std.MCL_FUTURE
const MNT_DETACH = std.MNT_DETACH
const MNT_EXPIRE = std.MNT_EXPIRE
const MNT_FORCE = std.MNT_FORCE
const MSG_CMSG_CLOEXEC = std.MSG_CMSG_CLOEXEC
const MSG_CONFIRM = std.MSG_CONFIRM
const MSG_CTRUNC = std.MSG_CTRUNC
const MSG_DONTROUTE = std.MSG_DONTROUTE
const MSG_DONTWAIT = std.MSG_DONTWAIT
const MSG_EOR = std.MSG_EOR
const MSG_ERRQUEUE = std.MSG_ERRQUEUE
const MSG_FASTOPEN = std.MSG_FASTOPEN
const MSG_FIN = std.MSG_FIN
const MSG_MORE = std.MSG_MORE
const MSG_NOSIGNAL = std.MSG_NOSIGNAL
const MSG_OOB = std.MSG_OOB
const MSG_PEEK = std.MSG_PEEK
const MSG_PROXY = std.MSG_PROXY
const MSG_RST = std.MSG_RST
const MSG_SYN = std.MSG_SYN
const MSG_TRUNC = std.MSG_TRUNC
const MSG_TRYHARD = std.MSG_TRYHARD
const MSG_WAITALL = std.MSG_WAITALL
const MSG_WAITFORONE = std.MSG_WAITFORONE
const MS_ACTIVE = std.MS_ACTIVE
const MS_ASYNC = std.MS_ASYNC
const MS_BIND = std.MS_BIND
const MS_DIRSYNC = std.MS_DIRSYNC
const MS_INVALIDATE = std.MS_INVALIDATE
const MS_I_VERSION = std.MS_I_VERSION
const MS_KERNMOUNT = std.MS_KERNMOUNT
const MS_MANDLOCK = std.MS_MANDLOCK
const MS_MGC_MSK = std.MS_MGC_MSK
const MS_MGC_VAL = std.MS_MGC_VAL
const MS_MOVE = std.MS_MOVE
const MS_NOATIME = std.MS_NOATIME
const MS_NODEV = std.MS_NODEV
const MS_NODIRATIME = std.MS_NODIRATIME
const MS_NOEXEC = std.MS_NOEXEC
const MS_NOSUID = std.MS_NOSUID
const MS_NOUSER = std.MS_NOUSER
const MS_POSIXACL = std.MS_POSIXACL
const MS_PRIVATE = std.MS_PRIVATE
const MS_RDONLY = std.MS_RDONLY
const MS_REC = std.MS_REC
const MS_RELATIME = std.MS_RELATIME
const MS_REMOUNT = std.MS_REMOUNT
const MS_RMT_MASK = std.MS_RMT_MASK
const MS_SHARED = std.MS_SHARED
const MS_SILENT = std.MS_SILENT
const MS_SLAVE = std.MS_SLAVE
const MS_STRICTATIME = std.MS_STRICTATIME
const MS_SYNC = std.MS_SYNC
const MS_SYNCHRONOUS = std.MS_SYNCHRONOUS
const MS_UNBINDABLE = std.MS_UNBINDABLE

var Madvise = std.Madvise
var Mkdirat = std.Mkdirat
var Mkfifo = std.Mkfifo
var Mknod = std.Mknod
var Mknodat = std.Mknodat
var Mlock = std.Mlock
var Mlockall = std.Mlockall
var Mount = std.Mount
var Mprotect = std.Mprotect

type Msghdr = std.Msghdr

var Munlock = std.Munlock
var Munlockall = std.Munlockall

const NAME_MAX = std.NAME_MAX
const NETLINK_ADD_MEMBERSHIP = std.NETLINK_ADD_MEMBERSHIP
const NETLINK_AUDIT = std.NETLINK_AUDIT
const NETLINK_BROADCAST_ERROR = std.NETLINK_BROADCAST_ERROR
const NETLINK_CONNECTOR = std.NETLINK_CONNECTOR
const NETLINK_DNRTMSG = std.NETLINK_DNRTMSG
const NETLINK_DROP_MEMBERSHIP = std.NETLINK_DROP_MEMBERSHIP
const NETLINK_ECRYPTFS = std.NETLINK_ECRYPTFS
const NETLINK_FIB_LOOKUP = std.NETLINK_FIB_LOOKUP
const NETLINK_FIREWALL = std.NETLINK_FIREWALL
const NETLINK_GENERIC = std.NETLINK_GENERIC
const NETLINK_INET_DIAG = std.NETLINK_INET_DIAG
const NETLINK_IP6_FW = std.NETLINK_IP6_FW
const NETLINK_ISCSI = std.NETLINK_ISCSI
const NETLINK_KOBJECT_UEVENT = std.NETLINK_KOBJECT_UEVENT
const NETLINK_NETFILTER = std.NETLINK_NETFILTER
const NETLINK_NFLOG = std.NETLINK_NFLOG
const NETLINK_NO_ENOBUFS = std.NETLINK_NO_ENOBUFS
const NETLINK_PKTINFO = std.NETLINK_PKTINFO
const NETLINK_ROUTE = std.NETLINK_ROUTE
const NETLINK_SCSITRANSPORT = std.NETLINK_SCSITRANSPORT
const NETLINK_SELINUX = std.NETLINK_SELINUX
const NETLINK_UNUSED = std.NETLINK_UNUSED
const NETLINK_USERSOCK = std.NETLINK_USERSOCK
const NETLINK_XFRM = std.NETLINK_XFRM
const NLA_ALIGNTO = std.NLA_ALIGNTO
const NLA_F_NESTED = std.NLA_F_NESTED
const NLA_F_NET_BYTEORDER = std.NLA_F_NET_BYTEORDER
const NLA_HDRLEN = std.NLA_HDRLEN
const NLMSG_ALIGNTO = std.NLMSG_ALIGNTO
const NLMSG_DONE = std.NLMSG_DONE
const NLMSG_ERROR = std.NLMSG_ERROR
const NLMSG_HDRLEN = std.NLMSG_HDRLEN
const NLMSG_MIN_TYPE = std.NLMSG_MIN_TYPE
const NLMSG_NOOP = std.NLMSG_NOOP
const NLMSG_OVERRUN = std.NLMSG_OVERRUN
const NLM_F_ACK = std.NLM_F_ACK
const NLM_F_APPEND = std.NLM_F_APPEND
const NLM_F_ATOMIC = std.NLM_F_ATOMIC
const NLM_F_CREATE = std.NLM_F_CREATE
const NLM_F_DUMP = std.NLM_F_DUMP
const NLM_F_ECHO = std.NLM_F_ECHO
const NLM_F_EXCL = std.NLM_F_EXCL
const NLM_F_MATCH = std.NLM_F_MATCH
const NLM_F_MULTI = std.NLM_F_MULTI
const NLM_F_REPLACE = std.NLM_F_REPLACE
const NLM_F_REQUEST = std.NLM_F_REQUEST
const NLM_F_ROOT = std.NLM_F_ROOT
const NOFLSH = std.NOFLSH

var Nanosleep = std.Nanosleep

type NetlinkMessage = std.NetlinkMessage

var NetlinkRIB = std.NetlinkRIB

type NetlinkRouteAttr = std.NetlinkRouteAttr
type NetlinkRouteRequest = std.NetlinkRouteRequest
type NlAttr = std.NlAttr
type NlMsgerr = std.NlMsgerr
type NlMsghdr = std.NlMsghdr

var NsecToTimespec = std.NsecToTimespec
var NsecToTimeval = std.NsecToTimeval

const OCRNL = std.OCRNL
const OFDEL = std.OFDEL
const OFILL = std.OFILL
const OLCUC = std.OLCUC
const ONLCR = std.ONLCR
const ONLRET = std.ONLRET
const ONOCR = std.ONOCR
const OPOST = std.OPOST
const O_ACCMODE = std.O_ACCMODE
const O_APPEND = std.O_APPEND
const O_ASYNC = std.O_ASYNC
const O_CLOEXEC = std.O_CLOEXEC
const O_CREAT = std.O_CREAT
const O_DIRECT = std.O_DIRECT
const O_DIRECTORY = std.O_DIRECTORY
const O_DSYNC = std.O_DSYNC
const O_EXCL = std.O_EXCL
const O_FSYNC = std.O_FSYNC
const O_LARGEFILE = std.O_LARGEFILE
const O_NDELAY = std.O_NDELAY
const O_NOATIME = std.O_NOATIME
const O_NOCTTY = std.O_NOCTTY
const O_NOFOLLOW = std.O_NOFOLLOW
const O_NONBLOCK = std.O_NONBLOCK
const O_RDONLY = std.O_RDONLY
const O_RDWR = std.O_RDWR
const O_RSYNC = std.O_RSYNC
const O_SYNC = std.O_SYNC
const O_TRUNC = std.O_TRUNC
const O_WRONLY = std.O_WRONLY

var Open = std.Open
var Openat = std.Openat

const PACKET_ADD_MEMBERSHIP = std.PACKET_ADD_MEMBERSHIP
const PACKET_BROADCAST = std.PACKET_BROADCAST
const PACKET_DROP_MEMBERSHIP = std.PACKET_DROP_MEMBERSHIP
const PACKET_FASTROUTE = std.PACKET_FASTROUTE
const PACKET_HOST = std.PACKET_HOST
const PACKET_LOOPBACK = std.PACKET_LOOPBACK
const PACKET_MR_ALLMULTI = std.PACKET_MR_ALLMULTI
const PACKET_MR_MULTICAST = std.PACKET_MR_MULTICAST
const PACKET_MR_PROMISC = std.PACKET_MR_PROMISC
const PACKET_MULTICAST = std.PACKET_MULTICAST
const PACKET_OTHERHOST = std.PACKET_OTHERHOST
const PACKET_OUTGOING = std.PACKET_OUTGOING
const PACKET_RECV_OUTPUT = std.PACKET_RECV_OUTPUT
const PACKET_RX_RING = std.PACKET_RX_RING
const PACKET_STATISTICS = std.PACKET_STATISTICS
const PARENB = std.PARENB
const PARMRK = std.PARMRK
const PARODD = std.PARODD
const PENDIN = std.PENDIN
const PRIO_PGRP = std.PRIO_PGRP
const PRIO_PROCESS = std.PRIO_PROCESS
const PRIO_USER = std.PRIO_USER
const PROT_EXEC = std.PROT_EXEC
const PROT_GROWSDOWN = std.PROT_GROWSDOWN
const PROT_GROWSUP = std.PROT_GROWSUP
const PROT_NONE = std.PROT_NONE
const PROT_READ = std.PROT_READ
const PROT_WRITE = std.PROT_WRITE
const PR_CAPBSET_DROP = std.PR_CAPBSET_DROP
const PR_CAPBSET_READ = std.PR_CAPBSET_READ
const PR_ENDIAN_BIG = std.PR_ENDIAN_BIG
const PR_ENDIAN_LITTLE = std.PR_ENDIAN_LITTLE
const PR_ENDIAN_PPC_LITTLE = std.PR_ENDIAN_PPC_LITTLE
const PR_FPEMU_NOPRINT = std.PR_FPEMU_NOPRINT
const PR_FPEMU_SIGFPE = std.PR_FPEMU_SIGFPE
const PR_FP_EXC_ASYNC = std.PR_FP_EXC_ASYNC
const PR_FP_EXC_DISABLED = std.PR_FP_EXC_DISABLED
const PR_FP_EXC_DIV = std.PR_FP_EXC_DIV
const PR_FP_EXC_INV = std.PR_FP_EXC_INV
const PR_FP_EXC_NONRECOV = std.PR_FP_EXC_NONRECOV
const PR_FP_EXC_OVF = std.PR_FP_EXC_OVF
const PR_FP_EXC_PRECISE = std.PR_FP_EXC_PRECISE
const PR_FP_EXC_RES = std.PR_FP_EXC_RES
const PR_FP_EXC_SW_ENABLE = std.PR_FP_EXC_SW_ENABLE
const PR_FP_EXC_UND = std.PR_FP_EXC_UND
const PR_GET_DUMPABLE = std.PR_GET_DUMPABLE
const PR_GET_ENDIAN = std.PR_GET_ENDIAN
const PR_GET_FPEMU = std.PR_GET_FPEMU
const PR_GET_FPEXC = std.PR_GET_FPEXC
const PR_GET_KEEPCAPS = std.PR_GET_KEEPCAPS
const PR_GET_NAME = std.PR_GET_NAME
const PR_GET_PDEATHSIG = std.PR_GET_PDEATHSIG
const PR_GET_SECCOMP = std.PR_GET_SECCOMP
const PR_GET_SECUREBITS = std.PR_GET_SECUREBITS
const PR_GET_TIMERSLACK = std.PR_GET_TIMERSLACK
const PR_GET_TIMING = std.PR_GET_TIMING
const PR_GET_TSC = std.PR_GET_TSC
const PR_GET_UNALIGN = std.PR_GET_UNALIGN
const PR_MCE_KILL = std.PR_MCE_KILL
const PR_MCE_KILL_CLEAR = std.PR_MCE_KILL_CLEAR
const PR_MCE_KILL_DEFAULT = std.PR_MCE_KILL_DEFAULT
const PR_MCE_KILL_EARLY = std.PR_MCE_KILL_EARLY
const PR_MCE_KILL_GET = std.PR_MCE_KILL_GET
const PR_MCE_KILL_LATE = std.PR_MCE_KILL_LATE
const PR_MCE_KILL_SET = std.PR_MCE_KILL_SET
const PR_SET_DUMPABLE = std.PR_SET_DUMPABLE
const PR_SET_ENDIAN = std.PR_SET_ENDIAN
const PR_SET_FPEMU = std.PR_SET_FPEMU
const PR_SET_FPEXC = std.PR_SET_FPEXC
const PR_SET_KEEPCAPS = std.PR_SET_KEEPCAPS
const PR_SET_NAME = std.PR_SET_NAME
const PR_SET_PDEATHSIG = std.PR_SET_PDEATHSIG
const PR_SET_PTRACER = std.PR_SET_PTRACER
const PR_SET_SECCOMP = std.PR_SET_SECCOMP
const PR_SET_SECUREBITS = std.PR_SET_SECUREBITS
const PR_SET_TIMERSLACK = std.PR_SET_TIMERSLACK
const PR_SET_TIMING = std.PR_SET_TIMING
const PR_SET_TSC = std.PR_SET_TSC
const PR_SET_UNALIGN = std.PR_SET_UNALIGN
const PR_TASK_PERF_EVENTS_DISABLE = std.PR_TASK_PERF_EVENTS_DISABLE
const PR_TASK_PERF_EVENTS_ENABLE = std.PR_TASK_PERF_EVENTS_ENABLE
const PR_TIMING_STATISTICAL = std.PR_TIMING_STATISTICAL
const PR_TIMING_TIMESTAMP = std.PR_TIMING_TIMESTAMP
const PR_TSC_ENABLE = std.PR_TSC_ENABLE
const PR_TSC_SIGSEGV = std.PR_TSC_SIGSEGV
const PR_UNALIGN_NOPRINT = std.PR_UNALIGN_NOPRINT
const PR_UNALIGN_SIGBUS = std.PR_UNALIGN_SIGBUS
const PTRACE_ARCH_PRCTL = std.PTRACE_ARCH_PRCTL
const PTRACE_ATTACH = std.PTRACE_ATTACH
const PTRACE_CONT = std.PTRACE_CONT
const PTRACE_DETACH = std.PTRACE_DETACH
const PTRACE_EVENT_CLONE = std.PTRACE_EVENT_CLONE
const PTRACE_EVENT_EXEC = std.PTRACE_EVENT_EXEC
const PTRACE_EVENT_EXIT = std.PTRACE_EVENT_EXIT
const PTRACE_EVENT_FORK = std.PTRACE_EVENT_FORK
const PTRACE_EVENT_VFORK = std.PTRACE_EVENT_VFORK
const PTRACE_EVENT_VFORK_DONE = std.PTRACE_EVENT_VFORK_DONE
const PTRACE_GETEVENTMSG = std.PTRACE_GETEVENTMSG
const PTRACE_GETFPREGS = std.PTRACE_GETFPREGS
const PTRACE_GETFPXREGS = std.PTRACE_GETFPXREGS
const PTRACE_GETREGS = std.PTRACE_GETREGS
const PTRACE_GETREGSET = std.PTRACE_GETREGSET
const PTRACE_GETSIGINFO = std.PTRACE_GETSIGINFO
const PTRACE_GET_THREAD_AREA = std.PTRACE_GET_THREAD_AREA
const PTRACE_KILL = std.PTRACE_KILL
const PTRACE_OLDSETOPTIONS = std.PTRACE_OLDSETOPTIONS
const PTRACE_O_MASK = std.PTRACE_O_MASK
const PTRACE_O_TRACECLONE = std.PTRACE_O_TRACECLONE
const PTRACE_O_TRACEEXEC = std.PTRACE_O_TRACEEXEC
const PTRACE_O_TRACEEXIT = std.PTRACE_O_TRACEEXIT
const PTRACE_O_TRACEFORK = std.PTRACE_O_TRACEFORK
const PTRACE_O_TRACESYSGOOD = std.PTRACE_O_TRACESYSGOOD
const PTRACE_O_TRACEVFORK = std.PTRACE_O_TRACEVFORK
const PTRACE_O_TRACEVFORKDONE = std.PTRACE_O_TRACEVFORKDONE
const PTRACE_PEEKDATA = std.PTRACE_PEEKDATA
const PTRACE_PEEKTEXT = std.PTRACE_PEEKTEXT
const PTRACE_PEEKUSR = std.PTRACE_PEEKUSR
const PTRACE_POKEDATA = std.PTRACE_POKEDATA
const PTRACE_POKETEXT = std.PTRACE_POKETEXT
const PTRACE_POKEUSR = std.PTRACE_POKEUSR
const PTRACE_SETFPREGS = std.PTRACE_SETFPREGS
const PTRACE_SETFPXREGS = std.PTRACE_SETFPXREGS
const PTRACE_SETOPTIONS = std.PTRACE_SETOPTIONS
const PTRACE_SETREGS = std.PTRACE_SETREGS
const PTRACE_SETREGSET = std.PTRACE_SETREGSET
const PTRACE_SETSIGINFO = std.PTRACE_SETSIGINFO
const PTRACE_SET_THREAD_AREA = std.PTRACE_SET_THREAD_AREA
const PTRACE_SINGLEBLOCK = std.PTRACE_SINGLEBLOCK
const PTRACE_SINGLESTEP = std.PTRACE_SINGLESTEP
const PTRACE_SYSCALL = std.PTRACE_SYSCALL
const PTRACE_SYSEMU = std.PTRACE_SYSEMU
const PTRACE_SYSEMU_SINGLESTEP = std.PTRACE_SYSEMU_SINGLESTEP
const PTRACE_TRACEME = std.PTRACE_TRACEME

var ParseDirent = std.ParseDirent
var ParseNetlinkMessage = std.ParseNetlinkMessage
var ParseNetlinkRouteAttr = std.ParseNetlinkRouteAttr
var ParseSocketControlMessage = std.ParseSocketControlMessage
var ParseUnixCredentials = std.ParseUnixCredentials
var ParseUnixRights = std.ParseUnixRights

const PathMax = std.PathMax

var Pause = std.Pause
var Pipe = std.Pipe
var Pipe2 = std.Pipe2
var PivotRoot = std.PivotRoot
var Pread = std.Pread

type ProcAttr = std.ProcAttr

var PtraceAttach = std.PtraceAttach
var PtraceCont = std.PtraceCont
var PtraceDetach = std.PtraceDetach
var PtraceGetEventMsg = std.PtraceGetEventMsg
var PtraceGetRegs = std.PtraceGetRegs
var PtracePeekData = std.PtracePeekData
var PtracePeekText = std.PtracePeekText
var PtracePokeData = std.PtracePokeData
var PtracePokeText = std.PtracePokeText

type PtraceRegs = std.PtraceRegs

var PtraceSetOptions = std.PtraceSetOptions
var PtraceSetRegs = std.PtraceSetRegs
var PtraceSingleStep = std.PtraceSingleStep
var PtraceSyscall = std.PtraceSyscall
var Pwrite = std.Pwrite

const RLIMIT_AS = std.RLIMIT_AS
const RLIMIT_CORE = std.RLIMIT_CORE
const RLIMIT_CPU = std.RLIMIT_CPU
const RLIMIT_DATA = std.RLIMIT_DATA
const RLIMIT_FSIZE = std.RLIMIT_FSIZE
const RLIMIT_NOFILE = std.RLIMIT_NOFILE
const RLIMIT_STACK = std.RLIMIT_STACK
const RLIM_INFINITY = std.RLIM_INFINITY
const RTAX_ADVMSS = std.RTAX_ADVMSS
const RTAX_CWND = std.RTAX_CWND
const RTAX_FEATURES = std.RTAX_FEATURES
const RTAX_FEATURE_ALLFRAG = std.RTAX_FEATURE_ALLFRAG
const RTAX_FEATURE_ECN = std.RTAX_FEATURE_ECN
const RTAX_FEATURE_SACK = std.RTAX_FEATURE_SACK
const RTAX_FEATURE_TIMESTAMP = std.RTAX_FEATURE_TIMESTAMP
const RTAX_HOPLIMIT = std.RTAX_HOPLIMIT
const RTAX_INITCWND = std.RTAX_INITCWND
const RTAX_INITRWND = std.RTAX_INITRWND
const RTAX_LOCK = std.RTAX_LOCK
const RTAX_MAX = std.RTAX_MAX
const RTAX_MTU = std.RTAX_MTU
const RTAX_REORDERING = std.RTAX_REORDERING
const RTAX_RTO_MIN = std.RTAX_RTO_MIN
const RTAX_RTT = std.RTAX_RTT
const RTAX_RTTVAR = std.RTAX_RTTVAR
const RTAX_SSTHRESH = std.RTAX_SSTHRESH
const RTAX_UNSPEC = std.RTAX_UNSPEC
const RTAX_WINDOW = std.RTAX_WINDOW
const RTA_ALIGNTO = std.RTA_ALIGNTO
const RTA_CACHEINFO = std.RTA_CACHEINFO
const RTA_DST = std.RTA_DST
const RTA_FLOW = std.RTA_FLOW
const RTA_GATEWAY = std.RTA_GATEWAY
const RTA_IIF = std.RTA_IIF
const RTA_MAX = std.RTA_MAX
const RTA_METRICS = std.RTA_METRICS
const RTA_MULTIPATH = std.RTA_MULTIPATH
const RTA_OIF = std.RTA_OIF
const RTA_PREFSRC = std.RTA_PREFSRC
const RTA_PRIORITY = std.RTA_PRIORITY
const RTA_SRC = std.RTA_SRC
const RTA_TABLE = std.RTA_TABLE
const RTA_UNSPEC = std.RTA_UNSPEC
const RTCF_DIRECTSRC = std.RTCF_DIRECTSRC
const RTCF_DOREDIRECT = std.RTCF_DOREDIRECT
const RTCF_LOG = std.RTCF_LOG
const RTCF_MASQ = std.RTCF_MASQ
const RTCF_NAT = std.RTCF_NAT
const RTCF_VALVE = std.RTCF_VALVE
const RTF_ADDRCLASSMASK = std.RTF_ADDRCLASSMASK
const RTF_ADDRCONF = std.RTF_ADDRCONF
const RTF_ALLONLINK = std.RTF_ALLONLINK
const RTF_BROADCAST = std.RTF_BROADCAST
const RTF_CACHE = std.RTF_CACHE
const RTF_DEFAULT = std.RTF_DEFAULT
const RTF_DYNAMIC = std.RTF_DYNAMIC
const RTF_FLOW = std.RTF_FLOW
const RTF_GATEWAY = std.RTF_GATEWAY
const RTF_HOST = std.RTF_HOST
const RTF_INTERFACE = std.RTF_INTERFACE
const RTF_IRTT = std.RTF_IRTT
const RTF_LINKRT = std.RTF_LINKRT
const RTF_LOCAL = std.RTF_LOCAL
const RTF_MODIFIED = std.RTF_MODIFIED
const RTF_MSS = std.RTF_MSS
const RTF_MTU = std.RTF_MTU
const RTF_MULTICAST = std.RTF_MULTICAST
const RTF_NAT = std.RTF_NAT
const RTF_NOFORWARD = std.RTF_NOFORWARD
const RTF_NONEXTHOP = std.RTF_NONEXTHOP
const RTF_NOPMTUDISC = std.RTF_NOPMTUDISC
const RTF_POLICY = std.RTF_POLICY
const RTF_REINSTATE = std.RTF_REINSTATE
const RTF_REJECT = std.RTF_REJECT
const RTF_STATIC = std.RTF_STATIC
const RTF_THROW = std.RTF_THROW
const RTF_UP = std.RTF_UP
const RTF_WINDOW = std.RTF_WINDOW
const RTF_XRESOLVE = std.RTF_XRESOLVE
const RTM_BASE = std.RTM_BASE
const RTM_DELACTION = std.RTM_DELACTION
const RTM_DELADDR = std.RTM_DELADDR
const RTM_DELADDRLABEL = std.RTM_DELADDRLABEL
const RTM_DELLINK = std.RTM_DELLINK
const RTM_DELNEIGH = std.RTM_DELNEIGH
const RTM_DELQDISC = std.RTM_DELQDISC
const RTM_DELROUTE = std.RTM_DELROUTE
const RTM_DELRULE = std.RTM_DELRULE
const RTM_DELTCLASS = std.RTM_DELTCLASS
const RTM_DELTFILTER = std.RTM_DELTFILTER
const RTM_F_CLONED = std.RTM_F_CLONED
const RTM_F_EQUALIZE = std.RTM_F_EQUALIZE
const RTM_F_NOTIFY = std.RTM_F_NOTIFY
const RTM_F_PREFIX = std.RTM_F_PREFIX
const RTM_GETACTION = std.RTM_GETACTION
const RTM_GETADDR = std.RTM_GETADDR
const RTM_GETADDRLABEL = std.RTM_GETADDRLABEL
const RTM_GETANYCAST = std.RTM_GETANYCAST
const RTM_GETDCB = std.RTM_GETDCB
const RTM_GETLINK = std.RTM_GETLINK
const RTM_GETMULTICAST = std.RTM_GETMULTICAST
const RTM_GETNEIGH = std.RTM_GETNEIGH
const RTM_GETNEIGHTBL = std.RTM_GETNEIGHTBL
const RTM_GETQDISC = std.RTM_GETQDISC
const RTM_GETROUTE = std.RTM_GETROUTE
const RTM_GETRULE = std.RTM_GETRULE
const RTM_GETTCLASS = std.RTM_GETTCLASS
const RTM_GETTFILTER = std.RTM_GETTFILTER
const RTM_MAX = std.RTM_MAX
const RTM_NEWACTION = std.RTM_NEWACTION
const RTM_NEWADDR = std.RTM_NEWADDR
const RTM_NEWADDRLABEL = std.RTM_NEWADDRLABEL
const RTM_NEWLINK = std.RTM_NEWLINK
const RTM_NEWNDUSEROPT = std.RTM_NEWNDUSEROPT
const RTM_NEWNEIGH = std.RTM_NEWNEIGH
const RTM_NEWNEIGHTBL = std.RTM_NEWNEIGHTBL
const RTM_NEWPREFIX = std.RTM_NEWPREFIX
const RTM_NEWQDISC = std.RTM_NEWQDISC
const RTM_NEWROUTE = std.RTM_NEWROUTE
const RTM_NEWRULE = std.RTM_NEWRULE
const RTM_NEWTCLASS = std.RTM_NEWTCLASS
const RTM_NEWTFILTER = std.RTM_NEWTFILTER
const RTM_NR_FAMILIES = std.RTM_NR_FAMILIES
const RTM_NR_MSGTYPES = std.RTM_NR_MSGTYPES
const RTM_SETDCB = std.RTM_SETDCB
const RTM_SETLINK = std.RTM_SETLINK
const RTM_SETNEIGHTBL = std.RTM_SETNEIGHTBL
const RTNH_ALIGNTO = std.RTNH_ALIGNTO
const RTNH_F_DEAD = std.RTNH_F_DEAD
const RTNH_F_ONLINK = std.RTNH_F_ONLINK
const RTNH_F_PERVASIVE = std.RTNH_F_PERVASIVE
const RTNLGRP_IPV4_IFADDR = std.RTNLGRP_IPV4_IFADDR
const RTNLGRP_IPV4_MROUTE = std.RTNLGRP_IPV4_MROUTE
const RTNLGRP_IPV4_ROUTE = std.RTNLGRP_IPV4_ROUTE
const RTNLGRP_IPV4_RULE = std.RTNLGRP_IPV4_RULE
const RTNLGRP_IPV6_IFADDR = std.RTNLGRP_IPV6_IFADDR
const RTNLGRP_IPV6_IFINFO = std.RTNLGRP_IPV6_IFINFO
const RTNLGRP_IPV6_MROUTE = std.RTNLGRP_IPV6_MROUTE
const RTNLGRP_IPV6_PREFIX = std.RTNLGRP_IPV6_PREFIX
const RTNLGRP_IPV6_ROUTE = std.RTNLGRP_IPV6_ROUTE
const RTNLGRP_IPV6_RULE = std.RTNLGRP_IPV6_RULE
const RTNLGRP_LINK = std.RTNLGRP_LINK
const RTNLGRP_ND_USEROPT = std.RTNLGRP_ND_USEROPT
const RTNLGRP_NEIGH = std.RTNLGRP_NEIGH
const RTNLGRP_NONE = std.RTNLGRP_NONE
const RTNLGRP_NOTIFY = std.RTNLGRP_NOTIFY
const RTNLGRP_TC = std.RTNLGRP_TC
const RTN_ANYCAST = std.RTN_ANYCAST
const RTN_BLACKHOLE = std.RTN_BLACKHOLE
const RTN_BROADCAST = std.RTN_BROADCAST
const RTN_LOCAL = std.RTN_LOCAL
const RTN_MAX = std.RTN_MAX
const RTN_MULTICAST = std.RTN_MULTICAST
const RTN_NAT = std.RTN_NAT
const RTN_PROHIBIT = std.RTN_PROHIBIT
const RTN_THROW = std.RTN_THROW
const RTN_UNICAST = std.RTN_UNICAST
const RTN_UNREACHABLE = std.RTN_UNREACHABLE
const RTN_UNSPEC = std.RTN_UNSPEC
const RTN_XRESOLVE = std.RTN_XRESOLVE
const RTPROT_BIRD = std.RTPROT_BIRD
const RTPROT_BOOT = std.RTPROT_BOOT
const RTPROT_DHCP = std.RTPROT_DHCP
const RTPROT_DNROUTED = std.RTPROT_DNROUTED
const RTPROT_GATED = std.RTPROT_GATED
const RTPROT_KERNEL = std.RTPROT_KERNEL
const RTPROT_MRT = std.RTPROT_MRT
const RTPROT_NTK = std.RTPROT_NTK
const RTPROT_RA = std.RTPROT_RA
const RTPROT_REDIRECT = std.RTPROT_REDIRECT
const RTPROT_STATIC = std.RTPROT_STATIC
const RTPROT_UNSPEC = std.RTPROT_UNSPEC
const RTPROT_XORP = std.RTPROT_XORP
const RTPROT_ZEBRA = std.RTPROT_ZEBRA
const RT_CLASS_DEFAULT = std.RT_CLASS_DEFAULT
const RT_CLASS_LOCAL = std.RT_CLASS_LOCAL
const RT_CLASS_MAIN = std.RT_CLASS_MAIN
const RT_CLASS_MAX = std.RT_CLASS_MAX
const RT_CLASS_UNSPEC = std.RT_CLASS_UNSPEC
const RT_SCOPE_HOST = std.RT_SCOPE_HOST
const RT_SCOPE_LINK = std.RT_SCOPE_LINK
const RT_SCOPE_NOWHERE = std.RT_SCOPE_NOWHERE
const RT_SCOPE_SITE = std.RT_SCOPE_SITE
const RT_SCOPE_UNIVERSE = std.RT_SCOPE_UNIVERSE
const RT_TABLE_COMPAT = std.RT_TABLE_COMPAT
const RT_TABLE_DEFAULT = std.RT_TABLE_DEFAULT
const RT_TABLE_LOCAL = std.RT_TABLE_LOCAL
const RT_TABLE_MAIN = std.RT_TABLE_MAIN
const RT_TABLE_MAX = std.RT_TABLE_MAX
const RT_TABLE_UNSPEC = std.RT_TABLE_UNSPEC
const RUSAGE_CHILDREN = std.RUSAGE_CHILDREN
const RUSAGE_SELF = std.RUSAGE_SELF
const RUSAGE_THREAD = std.RUSAGE_THREAD

type RawConn = std.RawConn
type RawSockaddr = std.RawSockaddr
type RawSockaddrAny = std.RawSockaddrAny
type RawSockaddrInet4 = std.RawSockaddrInet4
type RawSockaddrInet6 = std.RawSockaddrInet6
type RawSockaddrLinklayer = std.RawSockaddrLinklayer
type RawSockaddrNetlink = std.RawSockaddrNetlink
type RawSockaddrUnix = std.RawSockaddrUnix

var RawSyscall = std.RawSyscall
var RawSyscall6 = std.RawSyscall6
var Read = std.Read
var ReadDirent = std.ReadDirent
var Readlink = std.Readlink
var Reboot = std.Reboot
var Recvfrom = std.Recvfrom
var Recvmsg = std.Recvmsg
var Removexattr = std.Removexattr
var Renameat = std.Renameat

type Rlimit = std.Rlimit
type RtAttr = std.RtAttr
type RtGenmsg = std.RtGenmsg
type RtMsg = std.RtMsg
type RtNexthop = std.RtNexthop
type Rusage = std.Rusage

const SCM_CREDENTIALS = std.SCM_CREDENTIALS
const SCM_RIGHTS = std.SCM_RIGHTS
const SCM_TIMESTAMP = std.SCM_TIMESTAMP
const SCM_TIMESTAMPING = std.SCM_TIMESTAMPING
const SCM_TIMESTAMPNS = std.SCM_TIMESTAMPNS
const SHUT_RD = std.SHUT_RD
const SHUT_RDWR = std.SHUT_RDWR
const SHUT_WR = std.SHUT_WR
const SIGABRT = std.SIGABRT
const SIGALRM = std.SIGALRM
const SIGBUS = std.SIGBUS
const SIGCHLD = std.SIGCHLD
const SIGCLD = std.SIGCLD
const SIGCONT = std.SIGCONT
const SIGFPE = std.SIGFPE
const SIGHUP = std.SIGHUP
const SIGILL = std.SIGILL
const SIGINT = std.SIGINT
const SIGIO = std.SIGIO
const SIGIOT = std.SIGIOT
const SIGKILL = std.SIGKILL
const SIGPIPE = std.SIGPIPE
const SIGPOLL = std.SIGPOLL
const SIGPROF = std.SIGPROF
const SIGPWR = std.SIGPWR
const SIGQUIT = std.SIGQUIT
const SIGSEGV = std.SIGSEGV
const SIGSTKFLT = std.SIGSTKFLT
const SIGSTOP = std.SIGSTOP
const SIGSYS = std.SIGSYS
const SIGTERM = std.SIGTERM
const SIGTRAP = std.SIGTRAP
const SIGTSTP = std.SIGTSTP
const SIGTTIN = std.SIGTTIN
const SIGTTOU = std.SIGTTOU
const SIGUNUSED = std.SIGUNUSED
const SIGURG = std.SIGURG
const SIGUSR1 = std.SIGUSR1
const SIGUSR2 = std.SIGUSR2
const SIGVTALRM = std.SIGVTALRM
const SIGWINCH = std.SIGWINCH
const SIGXCPU = std.SIGXCPU
const SIGXFSZ = std.SIGXFSZ
const SIOCADDDLCI = std.SIOCADDDLCI
const SIOCADDMULTI = std.SIOCADDMULTI
const SIOCADDRT = std.SIOCADDRT
const SIOCATMARK = std.SIOCATMARK
const SIOCDARP = std.SIOCDARP
const SIOCDELDLCI = std.SIOCDELDLCI
const SIOCDELMULTI = std.SIOCDELMULTI
const SIOCDELRT = std.SIOCDELRT
const SIOCDEVPRIVATE = std.SIOCDEVPRIVATE
const SIOCDIFADDR = std.SIOCDIFADDR
const SIOCDRARP = std.SIOCDRARP
const SIOCGARP = std.SIOCGARP
const SIOCGIFADDR = std.SIOCGIFADDR
const SIOCGIFBR = std.SIOCGIFBR
const SIOCGIFBRDADDR = std.SIOCGIFBRDADDR
const SIOCGIFCONF = std.SIOCGIFCONF
const SIOCGIFCOUNT = std.SIOCGIFCOUNT
const SIOCGIFDSTADDR = std.SIOCGIFDSTADDR
const SIOCGIFENCAP = std.SIOCGIFENCAP
const SIOCGIFFLAGS = std.SIOCGIFFLAGS
const SIOCGIFHWADDR = std.SIOCGIFHWADDR
const SIOCGIFINDEX = std.SIOCGIFINDEX
const SIOCGIFMAP = std.SIOCGIFMAP
const SIOCGIFMEM = std.SIOCGIFMEM
const SIOCGIFMETRIC = std.SIOCGIFMETRIC
const SIOCGIFMTU = std.SIOCGIFMTU
const SIOCGIFNAME = std.SIOCGIFNAME
const SIOCGIFNETMASK = std.SIOCGIFNETMASK
const SIOCGIFPFLAGS = std.SIOCGIFPFLAGS
const SIOCGIFSLAVE = std.SIOCGIFSLAVE
const SIOCGIFTXQLEN = std.SIOCGIFTXQLEN
const SIOCGPGRP = std.SIOCGPGRP
const SIOCGRARP = std.SIOCGRARP
const SIOCGSTAMP = std.SIOCGSTAMP
const SIOCGSTAMPNS = std.SIOCGSTAMPNS
const SIOCPROTOPRIVATE = std.SIOCPROTOPRIVATE
const SIOCRTMSG = std.SIOCRTMSG
const SIOCSARP = std.SIOCSARP
const SIOCSIFADDR = std.SIOCSIFADDR
const SIOCSIFBR = std.SIOCSIFBR
const SIOCSIFBRDADDR = std.SIOCSIFBRDADDR
const SIOCSIFDSTADDR = std.SIOCSIFDSTADDR
const SIOCSIFENCAP = std.SIOCSIFENCAP
const SIOCSIFFLAGS = std.SIOCSIFFLAGS
const SIOCSIFHWADDR = std.SIOCSIFHWADDR
const SIOCSIFHWBROADCAST = std.SIOCSIFHWBROADCAST
const SIOCSIFLINK = std.SIOCSIFLINK
const SIOCSIFMAP = std.SIOCSIFMAP
const SIOCSIFMEM = std.SIOCSIFMEM
const SIOCSIFMETRIC = std.SIOCSIFMETRIC
const SIOCSIFMTU = std.SIOCSIFMTU
const SIOCSIFNAME = std.SIOCSIFNAME
const SIOCSIFNETMASK = std.SIOCSIFNETMASK
const SIOCSIFPFLAGS = std.SIOCSIFPFLAGS
const SIOCSIFSLAVE = std.SIOCSIFSLAVE
const SIOCSIFTXQLEN = std.SIOCSIFTXQLEN
const SIOCSPGRP = std.SIOCSPGRP
const SIOCSRARP = std.SIOCSRARP
const SOCK_CLOEXEC = std.SOCK_CLOEXEC
const SOCK_DCCP = std.SOCK_DCCP
const SOCK_DGRAM = std.SOCK_DGRAM
const SOCK_NONBLOCK = std.SOCK_NONBLOCK
const SOCK_PACKET = std.SOCK_PACKET
const SOCK_RAW = std.SOCK_RAW
const SOCK_RDM = std.SOCK_RDM
const SOCK_SEQPACKET = std.SOCK_SEQPACKET
const SOCK_STREAM = std.SOCK_STREAM
const SOL_AAL = std.SOL_AAL
const SOL_ATM = std.SOL_ATM
const SOL_DECNET = std.SOL_DECNET
const SOL_ICMPV6 = std.SOL_ICMPV6
const SOL_IP = std.SOL_IP
const SOL_IPV6 = std.SOL_IPV6
const SOL_IRDA = std.SOL_IRDA
const SOL_PACKET = std.SOL_PACKET
const SOL_RAW = std.SOL_RAW
const SOL_SOCKET = std.SOL_SOCKET
const SOL_TCP = std.SOL_TCP
const SOL_X25 = std.SOL_X25
const SOMAXCONN = std.SOMAXCONN
const SO_ACCEPTCONN = std.SO_ACCEPTCONN
const SO_ATTACH_FILTER = std.SO_ATTACH_FILTER
const SO_BINDTODEVICE = std.SO_BINDTODEVICE
const SO_BROADCAST = std.SO_BROADCAST
const SO_BSDCOMPAT = std.SO_BSDCOMPAT
const SO_DEBUG = std.SO_DEBUG
const SO_DETACH_FILTER = std.SO_DETACH_FILTER
const SO_DOMAIN = std.SO_DOMAIN
const SO_DONTROUTE = std.SO_DONTROUTE
const SO_ERROR = std.SO_ERROR
const SO_KEEPALIVE = std.SO_KEEPALIVE
const SO_LINGER = std.SO_LINGER
const SO_MARK = std.SO_MARK
const SO_NO_CHECK = std.SO_NO_CHECK
const SO_OOBINLINE = std.SO_OOBINLINE
const SO_PASSCRED = std.SO_PASSCRED
const SO_PASSSEC = std.SO_PASSSEC
const SO_PEERCRED = std.SO_PEERCRED
const SO_PEERNAME = std.SO_PEERNAME
const SO_PEERSEC = std.SO_PEERSEC
const SO_PRIORITY = std.SO_PRIORITY
const SO_PROTOCOL = std.SO_PROTOCOL
const SO_RCVBUF = std.SO_RCVBUF
const SO_RCVBUFFORCE = std.SO_RCVBUFFORCE
const SO_RCVLOWAT = std.SO_RCVLOWAT
const SO_RCVTIMEO = std.SO_RCVTIMEO
const SO_REUSEADDR = std.SO_REUSEADDR
const SO_RXQ_OVFL = std.SO_RXQ_OVFL
const SO_SECURITY_AUTHENTICATION = std.SO_SECURITY_AUTHENTICATION
const SO_SECURITY_ENCRYPTION_NETWORK = std.SO_SECURITY_ENCRYPTION_NETWORK
const SO_SECURITY_ENCRYPTION_TRANSPORT = std.SO_SECURITY_ENCRYPTION_TRANSPORT
const SO_SNDBUF = std.SO_SNDBUF
const SO_SNDBUFFORCE = std.SO_SNDBUFFORCE
const SO_SNDLOWAT = std.SO_SNDLOWAT
const SO_SNDTIMEO = std.SO_SNDTIMEO
const SO_TIMESTAMP = std.SO_TIMESTAMP
const SO_TIMESTAMPING = std.SO_TIMESTAMPING
const SO_TIMESTAMPNS = std.SO_TIMESTAMPNS
const SO_TYPE = std.SO_TYPE
const SYS_ACCEPT = std.SYS_ACCEPT
const SYS_ACCEPT4 = std.SYS_ACCEPT4
const SYS_ACCESS = std.SYS_ACCESS
const SYS_ACCT = std.SYS_ACCT
const SYS_ADD_KEY = std.SYS_ADD_KEY
const SYS_ADJTIMEX = std.SYS_ADJTIMEX
const SYS_AFS_SYSCALL = std.SYS_AFS_SYSCALL
const SYS_ALARM = std.SYS_ALARM
const SYS_ARCH_PRCTL = std.SYS_ARCH_PRCTL
const SYS_BIND = std.SYS_BIND
const SYS_BRK = std.SYS_BRK
const SYS_CAPGET = std.SYS_CAPGET
const SYS_CAPSET = std.SYS_CAPSET
const SYS_CHDIR = std.SYS_CHDIR
const SYS_CHMOD = std.SYS_CHMOD
const SYS_CHOWN = std.SYS_CHOWN
const SYS_CHROOT = std.SYS_CHROOT
const SYS_CLOCK_GETRES = std.SYS_CLOCK_GETRES
const SYS_CLOCK_GETTIME = std.SYS_CLOCK_GETTIME
const SYS_CLOCK_NANOSLEEP = std.SYS_CLOCK_NANOSLEEP
const SYS_CLOCK_SETTIME = std.SYS_CLOCK_SETTIME
const SYS_CLONE = std.SYS_CLONE
const SYS_CLOSE = std.SYS_CLOSE
const SYS_CONNECT = std.SYS_CONNECT
const SYS_CREAT = std.SYS_CREAT
const SYS_CREATE_MODULE = std.SYS_CREATE_MODULE
const SYS_DELETE_MODULE = std.SYS_DELETE_MODULE
const SYS_DUP = std.SYS_DUP
const SYS_DUP2 = std.SYS_DUP2
const SYS_DUP3 = std.SYS_DUP3
const SYS_EPOLL_CREATE = std.SYS_EPOLL_CREATE
const SYS_EPOLL_CREATE1 = std.SYS_EPOLL_CREATE1
const SYS_EPOLL_CTL = std.SYS_EPOLL_CTL
const SYS_EPOLL_CTL_OLD = std.SYS_EPOLL_CTL_OLD
const SYS_EPOLL_PWAIT = std.SYS_EPOLL_PWAIT
const SYS_EPOLL_WAIT = std.SYS_EPOLL_WAIT
const SYS_EPOLL_WAIT_OLD = std.SYS_EPOLL_WAIT_OLD
const SYS_EVENTFD = std.SYS_EVENTFD
const SYS_EVENTFD2 = std.SYS_EVENTFD2
const SYS_EXECVE = std.SYS_EXECVE
const SYS_EXIT = std.SYS_EXIT
const SYS_EXIT_GROUP = std.SYS_EXIT_GROUP
const SYS_FACCESSAT = std.SYS_FACCESSAT
const SYS_FADVISE64 = std.SYS_FADVISE64
const SYS_FALLOCATE = std.SYS_FALLOCATE
const SYS_FANOTIFY_INIT = std.SYS_FANOTIFY_INIT
const SYS_FANOTIFY_MARK = std.SYS_FANOTIFY_MARK
const SYS_FCHDIR = std.SYS_FCHDIR
const SYS_FCHMOD = std.SYS_FCHMOD
const SYS_FCHMODAT = std.SYS_FCHMODAT
const SYS_FCHOWN = std.SYS_FCHOWN
const SYS_FCHOWNAT = std.SYS_FCHOWNAT
const SYS_FCNTL = std.SYS_FCNTL
const SYS_FDATASYNC = std.SYS_FDATASYNC
const SYS_FGETXATTR = std.SYS_FGETXATTR
const SYS_FLISTXATTR = std.SYS_FLISTXATTR
const SYS_FLOCK = std.SYS_FLOCK
const SYS_FORK = std.SYS_FORK
const SYS_FREMOVEXATTR = std.SYS_FREMOVEXATTR
const SYS_FSETXATTR = std.SYS_FSETXATTR
const SYS_FSTAT = std.SYS_FSTAT
const SYS_FSTATFS = std.SYS_FSTATFS
const SYS_FSYNC = std.SYS_FSYNC
const SYS_FTRUNCATE = std.SYS_FTRUNCATE
const SYS_FUTEX = std.SYS_FUTEX
const SYS_FUTIMESAT = std.SYS_FUTIMESAT
const SYS_GETCWD = std.SYS_GETCWD
const SYS_GETDENTS = std.SYS_GETDENTS
const SYS_GETDENTS64 = std.SYS_GETDENTS64
const SYS_GETEGID = std.SYS_GETEGID
const SYS_GETEUID = std.SYS_GETEUID
const SYS_GETGID = std.SYS_GETGID
const SYS_GETGROUPS = std.SYS_GETGROUPS
const SYS_GETITIMER = std.SYS_GETITIMER
const SYS_GETPEERNAME = std.SYS_GETPEERNAME
const SYS_GETPGID = std.SYS_GETPGID
const SYS_GETPGRP = std.SYS_GETPGRP
const SYS_GETPID = std.SYS_GETPID
const SYS_GETPMSG = std.SYS_GETPMSG
const SYS_GETPPID = std.SYS_GETPPID
const SYS_GETPRIORITY = std.SYS_GETPRIORITY
const SYS_GETRESGID = std.SYS_GETRESGID
const SYS_GETRESUID = std.SYS_GETRESUID
const SYS_GETRLIMIT = std.SYS_GETRLIMIT
const SYS_GETRUSAGE = std.SYS_GETRUSAGE
const SYS_GETSID = std.SYS_GETSID
const SYS_GETSOCKNAME = std.SYS_GETSOCKNAME
const SYS_GETSOCKOPT = std.SYS_GETSOCKOPT
const SYS_GETTID = std.SYS_GETTID
const SYS_GETTIMEOFDAY = std.SYS_GETTIMEOFDAY
const SYS_GETUID = std.SYS_GETUID
const SYS_GETXATTR = std.SYS_GETXATTR
const SYS_GET_KERNEL_SYMS = std.SYS_GET_KERNEL_SYMS
const SYS_GET_MEMPOLICY = std.SYS_GET_MEMPOLICY
const SYS_GET_ROBUST_LIST = std.SYS_GET_ROBUST_LIST
const SYS_GET_THREAD_AREA = std.SYS_GET_THREAD_AREA
const SYS_INIT_MODULE = std.SYS_INIT_MODULE
const SYS_INOTIFY_ADD_WATCH = std.SYS_INOTIFY_ADD_WATCH
const SYS_INOTIFY_INIT = std.SYS_INOTIFY_INIT
const SYS_INOTIFY_INIT1 = std.SYS_INOTIFY_INIT1
const SYS_INOTIFY_RM_WATCH = std.SYS_INOTIFY_RM_WATCH
const SYS_IOCTL = std.SYS_IOCTL
const SYS_IOPERM = std.SYS_IOPERM
const SYS_IOPL = std.SYS_IOPL
const SYS_IOPRIO_GET = std.SYS_IOPRIO_GET
const SYS_IOPRIO_SET = std.SYS_IOPRIO_SET
const SYS_IO_CANCEL = std.SYS_IO_CANCEL
const SYS_IO_DESTROY = std.SYS_IO_DESTROY
const SYS_IO_GETEVENTS = std.SYS_IO_GETEVENTS
const SYS_IO_SETUP = std.SYS_IO_SETUP
const SYS_IO_SUBMIT = std.SYS_IO_SUBMIT
const SYS_KEXEC_LOAD = std.SYS_KEXEC_LOAD
const SYS_KEYCTL = std.SYS_KEYCTL
const SYS_KILL = std.SYS_KILL
const SYS_LCHOWN = std.SYS_LCHOWN
const SYS_LGETXATTR = std.SYS_LGETXATTR
const SYS_LINK = std.SYS_LINK
const SYS_LINKAT = std.SYS_LINKAT
const SYS_LISTEN = std.SYS_LISTEN
const SYS_LISTXATTR = std.SYS_LISTXATTR
const SYS_LLISTXATTR = std.SYS_LLISTXATTR
const SYS_LOOKUP_DCOOKIE = std.SYS_LOOKUP_DCOOKIE
const SYS_LREMOVEXATTR = std.SYS_LREMOVEXATTR
const SYS_LSEEK = std.SYS_LSEEK
const SYS_LSETXATTR = std.SYS_LSETXATTR
const SYS_LSTAT = std.SYS_LSTAT
const SYS_MADVISE = std.SYS_MADVISE
const SYS_MBIND = std.SYS_MBIND
const SYS_MIGRATE_PAGES = std.SYS_MIGRATE_PAGES
const SYS_MINCORE = std.SYS_MINCORE
const SYS_MKDIR = std.SYS_MKDIR
const SYS_MKDIRAT = std.SYS_MKDIRAT
const SYS_MKNOD = std.SYS_MKNOD
const SYS_MKNODAT = std.SYS_MKNODAT
const SYS_MLOCK = std.SYS_MLOCK
const SYS_MLOCKALL = std.SYS_MLOCKALL
const SYS_MMAP = std.SYS_MMAP
const SYS_MODIFY_LDT = std.SYS_MODIFY_LDT
const SYS_MOUNT = std.SYS_MOUNT
const SYS_MOVE_PAGES = std.SYS_MOVE_PAGES
const SYS_MPROTECT = std.SYS_MPROTECT
const SYS_MQ_GETSETATTR = std.SYS_MQ_GETSETATTR
const SYS_MQ_NOTIFY = std.SYS_MQ_NOTIFY
const SYS_MQ_OPEN = std.SYS_MQ_OPEN
const SYS_MQ_TIMEDRECEIVE = std.SYS_MQ_TIMEDRECEIVE
const SYS_MQ_TIMEDSEND = std.SYS_MQ_TIMEDSEND
const SYS_MQ_UNLINK = std.SYS_MQ_UNLINK
const SYS_MREMAP = std.SYS_MREMAP
const SYS_MSGCTL = std.SYS_MSGCTL
const SYS_MSGGET = std.SYS_MSGGET
const SYS_MSGRCV = std.SYS_MSGRCV
const SYS_MSGSND = std.SYS_MSGSND
const SYS_MSYNC = std.SYS_MSYNC
const SYS_MUNLOCK = std.SYS_MUNLOCK
const SYS_MUNLOCKALL = std.SYS_MUNLOCKALL
const SYS_MUNMAP = std.SYS_MUNMAP
const SYS_NANOSLEEP = std.SYS_NANOSLEEP
const SYS_NEWFSTATAT = std.SYS_NEWFSTATAT
const SYS_NFSSERVCTL = std.SYS_NFSSERVCTL
const SYS_OPEN = std.SYS_OPEN
const SYS_OPENAT = std.SYS_OPENAT
const SYS_PAUSE = std.SYS_PAUSE
const SYS_PERF_EVENT_OPEN = std.SYS_PERF_EVENT_OPEN
const SYS_PERSONALITY = std.SYS_PERSONALITY
const SYS_PIPE = std.SYS_PIPE
const SYS_PIPE2 = std.SYS_PIPE2
const SYS_PIVOT_ROOT = std.SYS_PIVOT_ROOT
const SYS_POLL = std.SYS_POLL
const SYS_PPOLL = std.SYS_PPOLL
const SYS_PRCTL = std.SYS_PRCTL
const SYS_PREAD64 = std.SYS_PREAD64
const SYS_PREADV = std.SYS_PREADV
const SYS_PRLIMIT64 = std.SYS_PRLIMIT64
const SYS_PSELECT6 = std.SYS_PSELECT6
const SYS_PTRACE = std.SYS_PTRACE
const SYS_PUTPMSG = std.SYS_PUTPMSG
const SYS_PWRITE64 = std.SYS_PWRITE64
const SYS_PWRITEV = std.SYS_PWRITEV
const SYS_QUERY_MODULE = std.SYS_QUERY_MODULE
const SYS_QUOTACTL = std.SYS_QUOTACTL
const SYS_READ = std.SYS_READ
const SYS_READAHEAD = std.SYS_READAHEAD
const SYS_READLINK = std.SYS_READLINK
const SYS_READLINKAT = std.SYS_READLINKAT
const SYS_READV = std.SYS_READV
const SYS_REBOOT = std.SYS_REBOOT
const SYS_RECVFROM = std.SYS_RECVFROM
const SYS_RECVMMSG = std.SYS_RECVMMSG
const SYS_RECVMSG = std.SYS_RECVMSG
const SYS_REMAP_FILE_PAGES = std.SYS_REMAP_FILE_PAGES
const SYS_REMOVEXATTR = std.SYS_REMOVEXATTR
const SYS_RENAME = std.SYS_RENAME
const SYS_RENAMEAT = std.SYS_RENAMEAT
const SYS_REQUEST_KEY = std.SYS_REQUEST_KEY
const SYS_RESTART_SYSCALL = std.SYS_RESTART_SYSCALL
const SYS_RMDIR = std.SYS_RMDIR
const SYS_RT_SIGACTION = std.SYS_RT_SIGACTION
const SYS_RT_SIGPENDING = std.SYS_RT_SIGPENDING
const SYS_RT_SIGPROCMASK = std.SYS_RT_SIGPROCMASK
const SYS_RT_SIGQUEUEINFO = std.SYS_RT_SIGQUEUEINFO
const SYS_RT_SIGRETURN = std.SYS_RT_SIGRETURN
const SYS_RT_SIGSUSPEND = std.SYS_RT_SIGSUSPEND
const SYS_RT_SIGTIMEDWAIT = std.SYS_RT_SIGTIMEDWAIT
const SYS_RT_TGSIGQUEUEINFO = std.SYS_RT_TGSIGQUEUEINFO
const SYS_SCHED_GETAFFINITY = std.SYS_SCHED_GETAFFINITY
const SYS_SCHED_GETPARAM = std.SYS_SCHED_GETPARAM
const SYS_SCHED_GETSCHEDULER = std.SYS_SCHED_GETSCHEDULER
const SYS_SCHED_GET_PRIORITY_MAX = std.SYS_SCHED_GET_PRIORITY_MAX
const SYS_SCHED_GET_PRIORITY_MIN = std.SYS_SCHED_GET_PRIORITY_MIN
const SYS_SCHED_RR_GET_INTERVAL = std.SYS_SCHED_RR_GET_INTERVAL
const SYS_SCHED_SETAFFINITY = std.SYS_SCHED_SETAFFINITY
const SYS_SCHED_SETPARAM = std.SYS_SCHED_SETPARAM
const SYS_SCHED_SETSCHEDULER = std.SYS_SCHED_SETSCHEDULER
const SYS_SCHED_YIELD = std.SYS_SCHED_YIELD
const SYS_SECURITY = std.SYS_SECURITY
const SYS_SELECT = std.SYS_SELECT
const SYS_SEMCTL = std.SYS_SEMCTL
const SYS_SEMGET = std.SYS_SEMGET
const SYS_SEMOP = std.SYS_SEMOP
const SYS_SEMTIMEDOP = std.SYS_SEMTIMEDOP
const SYS_SENDFILE = std.SYS_SENDFILE
const SYS_SENDMSG = std.SYS_SENDMSG
const SYS_SENDTO = std.SYS_SENDTO
const SYS_SETDOMAINNAME = std.SYS_SETDOMAINNAME
const SYS_SETFSGID = std.SYS_SETFSGID
const SYS_SETFSUID = std.SYS_SETFSUID
const SYS_SETGID = std.SYS_SETGID
const SYS_SETGROUPS = std.SYS_SETGROUPS
const SYS_SETHOSTNAME = std.SYS_SETHOSTNAME
const SYS_SETITIMER = std.SYS_SETITIMER
const SYS_SETPGID = std.SYS_SETPGID
const SYS_SETPRIORITY = std.SYS_SETPRIORITY
const SYS_SETREGID = std.SYS_SETREGID
const SYS_SETRESGID = std.SYS_SETRESGID
const SYS_SETRESUID = std.SYS_SETRESUID
const SYS_SETREUID = std.SYS_SETREUID
const SYS_SETRLIMIT = std.SYS_SETRLIMIT
const SYS_SETSID = std.SYS_SETSID
const SYS_SETSOCKOPT = std.SYS_SETSOCKOPT
const SYS_SETTIMEOFDAY = std.SYS_SETTIMEOFDAY
const SYS_SETUID = std.SYS_SETUID
const SYS_SETXATTR = std.SYS_SETXATTR
const SYS_SET_MEMPOLICY = std.SYS_SET_MEMPOLICY
const SYS_SET_ROBUST_LIST = std.SYS_SET_ROBUST_LIST
const SYS_SET_THREAD_AREA = std.SYS_SET_THREAD_AREA
const SYS_SET_TID_ADDRESS = std.SYS_SET_TID_ADDRESS
const SYS_SHMAT = std.SYS_SHMAT
const SYS_SHMCTL = std.SYS_SHMCTL
const SYS_SHMDT = std.SYS_SHMDT
const SYS_SHMGET = std.SYS_SHMGET
const SYS_SHUTDOWN = std.SYS_SHUTDOWN
const SYS_SIGALTSTACK = std.SYS_SIGALTSTACK
const SYS_SIGNALFD = std.SYS_SIGNALFD
const SYS_SIGNALFD4 = std.SYS_SIGNALFD4
const SYS_SOCKET = std.SYS_SOCKET
const SYS_SOCKETPAIR = std.SYS_SOCKETPAIR
const SYS_SPLICE = std.SYS_SPLICE
const SYS_STAT = std.SYS_STAT
const SYS_STATFS = std.SYS_STATFS
const SYS_SWAPOFF = std.SYS_SWAPOFF
const SYS_SWAPON = std.SYS_SWAPON
const SYS_SYMLINK = std.SYS_SYMLINK
const SYS_SYMLINKAT = std.SYS_SYMLINKAT
const SYS_SYNC = std.SYS_SYNC
const SYS_SYNC_FILE_RANGE = std.SYS_SYNC_FILE_RANGE
const SYS_SYSFS = std.SYS_SYSFS
const SYS_SYSINFO = std.SYS_SYSINFO
const SYS_SYSLOG = std.SYS_SYSLOG
const SYS_TEE = std.SYS_TEE
const SYS_TGKILL = std.SYS_TGKILL
const SYS_TIME = std.SYS_TIME
const SYS_TIMERFD_CREATE = std.SYS_TIMERFD_CREATE
const SYS_TIMERFD_GETTIME = std.SYS_TIMERFD_GETTIME
const SYS_TIMERFD_SETTIME = std.SYS_TIMERFD_SETTIME
const SYS_TIMER_CREATE = std.SYS_TIMER_CREATE
const SYS_TIMER_DELETE = std.SYS_TIMER_DELETE
const SYS_TIMER_GETOVERRUN = std.SYS_TIMER_GETOVERRUN
const SYS_TIMER_GETTIME = std.SYS_TIMER_GETTIME
const SYS_TIMER_SETTIME = std.SYS_TIMER_SETTIME
const SYS_TIMES = std.SYS_TIMES
const SYS_TKILL = std.SYS_TKILL
const SYS_TRUNCATE = std.SYS_TRUNCATE
const SYS_TUXCALL = std.SYS_TUXCALL
const SYS_UMASK = std.SYS_UMASK
const SYS_UMOUNT2 = std.SYS_UMOUNT2
const SYS_UNAME = std.SYS_UNAME
const SYS_UNLINK = std.SYS_UNLINK
const SYS_UNLINKAT = std.SYS_UNLINKAT
const SYS_UNSHARE = std.SYS_UNSHARE
const SYS_USELIB = std.SYS_USELIB
const SYS_USTAT = std.SYS_USTAT
const SYS_UTIME = std.SYS_UTIME
const SYS_UTIMENSAT = std.SYS_UTIMENSAT
const SYS_UTIMES = std.SYS_UTIMES
const SYS_VFORK = std.SYS_VFORK
const SYS_VHANGUP = std.SYS_VHANGUP
const SYS_VMSPLICE = std.SYS_VMSPLICE
const SYS_VSERVER = std.SYS_VSERVER
const SYS_WAIT4 = std.SYS_WAIT4
const SYS_WAITID = std.SYS_WAITID
const SYS_WRITE = std.SYS_WRITE
const SYS_WRITEV = std.SYS_WRITEV
const SYS__SYSCTL = std.SYS__SYSCTL
const S_BLKSIZE = std.S_BLKSIZE
const S_IEXEC = std.S_IEXEC
const S_IFBLK = std.S_IFBLK
const S_IFCHR = std.S_IFCHR
const S_IFDIR = std.S_IFDIR
const S_IFIFO = std.S_IFIFO
const S_IFLNK = std.S_IFLNK
const S_IFMT = std.S_IFMT
const S_IFREG = std.S_IFREG
const S_IFSOCK = std.S_IFSOCK
const S_IREAD = std.S_IREAD
const S_IRGRP = std.S_IRGRP
const S_IROTH = std.S_IROTH
const S_IRUSR = std.S_IRUSR
const S_IRWXG = std.S_IRWXG
const S_IRWXO = std.S_IRWXO
const S_IRWXU = std.S_IRWXU
const S_ISGID = std.S_ISGID
const S_ISUID = std.S_ISUID
const S_ISVTX = std.S_ISVTX
const S_IWGRP = std.S_IWGRP
const S_IWOTH = std.S_IWOTH
const S_IWRITE = std.S_IWRITE
const S_IWUSR = std.S_IWUSR
const S_IXGRP = std.S_IXGRP
const S_IXOTH = std.S_IXOTH
const S_IXUSR = std.S_IXUSR

var Seek = std.Seek
var Select = std.Select
var Sendfile = std.Sendfile
var Sendmsg = std.Sendmsg
var SendmsgN = std.SendmsgN
var Sendto = std.Sendto
var SetLsfPromisc = std.SetLsfPromisc
var SetNonblock = std.SetNonblock
var Setdomainname = std.Setdomainname
var Setegid = std.Setegid
var Setenv = std.Setenv
var Seteuid = std.Seteuid
var Setfsgid = std.Setfsgid
var Setfsuid = std.Setfsuid
var Setgid = std.Setgid
var Setgroups = std.Setgroups
var Sethostname = std.Sethostname
var Setpgid = std.Setpgid
var Setpriority = std.Setpriority
var Setregid = std.Setregid
var Setresgid = std.Setresgid
var Setresuid = std.Setresuid
var Setreuid = std.Setreuid
var Setrlimit = std.Setrlimit
var Setsid = std.Setsid
var SetsockoptByte = std.SetsockoptByte
var SetsockoptICMPv6Filter = std.SetsockoptICMPv6Filter
var SetsockoptIPMreq = std.SetsockoptIPMreq
var SetsockoptIPMreqn = std.SetsockoptIPMreqn
var SetsockoptIPv6Mreq = std.SetsockoptIPv6Mreq
var SetsockoptInet4Addr = std.SetsockoptInet4Addr
var SetsockoptInt = std.SetsockoptInt
var SetsockoptLinger = std.SetsockoptLinger
var SetsockoptString = std.SetsockoptString
var SetsockoptTimeval = std.SetsockoptTimeval
var Settimeofday = std.Settimeofday
var Setuid = std.Setuid
var Setxattr = std.Setxattr
var Shutdown = std.Shutdown

type Signal = std.Signal

const SizeofCmsghdr = std.SizeofCmsghdr
const SizeofICMPv6Filter = std.SizeofICMPv6Filter
const SizeofIPMreq = std.SizeofIPMreq
const SizeofIPMreqn = std.SizeofIPMreqn
const SizeofIPv6MTUInfo = std.SizeofIPv6MTUInfo
const SizeofIPv6Mreq = std.SizeofIPv6Mreq
const SizeofIfAddrmsg = std.SizeofIfAddrmsg
const SizeofIfInfomsg = std.SizeofIfInfomsg
const SizeofInet4Pktinfo = std.SizeofInet4Pktinfo
const SizeofInet6Pktinfo = std.SizeofInet6Pktinfo
const SizeofInotifyEvent = std.SizeofInotifyEvent
const SizeofLinger = std.SizeofLinger
const SizeofMsghdr = std.SizeofMsghdr
const SizeofNlAttr = std.SizeofNlAttr
const SizeofNlMsgerr = std.SizeofNlMsgerr
const SizeofNlMsghdr = std.SizeofNlMsghdr
const SizeofRtAttr = std.SizeofRtAttr
const SizeofRtGenmsg = std.SizeofRtGenmsg
const SizeofRtMsg = std.SizeofRtMsg
const SizeofRtNexthop = std.SizeofRtNexthop
const SizeofSockFilter = std.SizeofSockFilter
const SizeofSockFprog = std.SizeofSockFprog
const SizeofSockaddrAny = std.SizeofSockaddrAny
const SizeofSockaddrInet4 = std.SizeofSockaddrInet4
const SizeofSockaddrInet6 = std.SizeofSockaddrInet6
const SizeofSockaddrLinklayer = std.SizeofSockaddrLinklayer
const SizeofSockaddrNetlink = std.SizeofSockaddrNetlink
const SizeofSockaddrUnix = std.SizeofSockaddrUnix
const SizeofTCPInfo = std.SizeofTCPInfo
const SizeofUcred = std.SizeofUcred

var SlicePtrFromStrings = std.SlicePtrFromStrings

type SockFilter = std.SockFilter
type SockFprog = std.SockFprog
type Sockaddr = std.Sockaddr
type SockaddrInet4 = std.SockaddrInet4
type SockaddrInet6 = std.SockaddrInet6
type SockaddrLinklayer = std.SockaddrLinklayer
type SockaddrNetlink = std.SockaddrNetlink
type SockaddrUnix = std.SockaddrUnix

var Socket = std.Socket

type SocketControlMessage = std.SocketControlMessage

var SocketDisableIPv6 = std.SocketDisableIPv6
var Socketpair = std.Socketpair
var Splice = std.Splice
var StartProcess = std.StartProcess

type Stat_t = std.Stat_t
type Statfs_t = std.Statfs_t

var Stderr = std.Stderr
var Stdin = std.Stdin
var Stdout = std.Stdout
var StringBytePtr = std.StringBytePtr
var StringByteSlice = std.StringByteSlice
var StringSlicePtr = std.StringSlicePtr
var SyncFileRange = std.SyncFileRange

type SysProcAttr = std.SysProcAttr
type SysProcIDMap = std.SysProcIDMap

var Syscall = std.Syscall
var Syscall6 = std.Syscall6
var Sysinfo = std.Sysinfo

type Sysinfo_t = std.Sysinfo_t

const TCGETS = std.TCGETS
const TCIFLUSH = std.TCIFLUSH
const TCIOFLUSH = std.TCIOFLUSH
const TCOFLUSH = std.TCOFLUSH

type TCPInfo = std.TCPInfo

const TCP_CONGESTION = std.TCP_CONGESTION
const TCP_CORK = std.TCP_CORK
const TCP_DEFER_ACCEPT = std.TCP_DEFER_ACCEPT
const TCP_INFO = std.TCP_INFO
const TCP_KEEPCNT = std.TCP_KEEPCNT
const TCP_KEEPIDLE = std.TCP_KEEPIDLE
const TCP_KEEPINTVL = std.TCP_KEEPINTVL
const TCP_LINGER2 = std.TCP_LINGER2
const TCP_MAXSEG = std.TCP_MAXSEG
const TCP_MAXWIN = std.TCP_MAXWIN
const TCP_MAX_WINSHIFT = std.TCP_MAX_WINSHIFT
const TCP_MD5SIG = std.TCP_MD5SIG
const TCP_MD5SIG_MAXKEYLEN = std.TCP_MD5SIG_MAXKEYLEN
const TCP_MSS = std.TCP_MSS
const TCP_NODELAY = std.TCP_NODELAY
const TCP_QUICKACK = std.TCP_QUICKACK
const TCP_SYNCNT = std.TCP_SYNCNT
const TCP_WINDOW_CLAMP = std.TCP_WINDOW_CLAMP
const TCSETS = std.TCSETS
const TIOCCBRK = std.TIOCCBRK
const TIOCCONS = std.TIOCCONS
const TIOCEXCL = std.TIOCEXCL
const TIOCGDEV = std.TIOCGDEV
const TIOCGETD = std.TIOCGETD
const TIOCGICOUNT = std.TIOCGICOUNT
const TIOCGLCKTRMIOS = std.TIOCGLCKTRMIOS
const TIOCGPGRP = std.TIOCGPGRP
const TIOCGPTN = std.TIOCGPTN
const TIOCGRS485 = std.TIOCGRS485
const TIOCGSERIAL = std.TIOCGSERIAL
const TIOCGSID = std.TIOCGSID
const TIOCGSOFTCAR = std.TIOCGSOFTCAR
const TIOCGWINSZ = std.TIOCGWINSZ
const TIOCINQ = std.TIOCINQ
const TIOCLINUX = std.TIOCLINUX
const TIOCMBIC = std.TIOCMBIC
const TIOCMBIS = std.TIOCMBIS
const TIOCMGET = std.TIOCMGET
const TIOCMIWAIT = std.TIOCMIWAIT
const TIOCMSET = std.TIOCMSET
const TIOCM_CAR = std.TIOCM_CAR
const TIOCM_CD = std.TIOCM_CD
const TIOCM_CTS = std.TIOCM_CTS
const TIOCM_DSR = std.TIOCM_DSR
const TIOCM_DTR = std.TIOCM_DTR
const TIOCM_LE = std.TIOCM_LE
const TIOCM_RI = std.TIOCM_RI
const TIOCM_RNG = std.TIOCM_RNG
const TIOCM_RTS = std.TIOCM_RTS
const TIOCM_SR = std.TIOCM_SR
const TIOCM_ST = std.TIOCM_ST
const TIOCNOTTY = std.TIOCNOTTY
const TIOCNXCL = std.TIOCNXCL
const TIOCOUTQ = std.TIOCOUTQ
const TIOCPKT = std.TIOCPKT
const TIOCPKT_DATA = std.TIOCPKT_DATA
const TIOCPKT_DOSTOP = std.TIOCPKT_DOSTOP
const TIOCPKT_FLUSHREAD = std.TIOCPKT_FLUSHREAD
const TIOCPKT_FLUSHWRITE = std.TIOCPKT_FLUSHWRITE
const TIOCPKT_IOCTL = std.TIOCPKT_IOCTL
const TIOCPKT_NOSTOP = std.TIOCPKT_NOSTOP
const TIOCPKT_START = std.TIOCPKT_START
const TIOCPKT_STOP = std.TIOCPKT_STOP
const TIOCSBRK = std.TIOCSBRK
const TIOCSCTTY = std.TIOCSCTTY
const TIOCSERCONFIG = std.TIOCSERCONFIG
const TIOCSERGETLSR = std.TIOCSERGETLSR
const TIOCSERGETMULTI = std.TIOCSERGETMULTI
const TIOCSERGSTRUCT = std.TIOCSERGSTRUCT
const TIOCSERGWILD = std.TIOCSERGWILD
const TIOCSERSETMULTI = std.TIOCSERSETMULTI
const TIOCSERSWILD = std.TIOCSERSWILD
const TIOCSER_TEMT = std.TIOCSER_TEMT
const TIOCSETD = std.TIOCSETD
const TIOCSIG = std.TIOCSIG
const TIOCSLCKTRMIOS = std.TIOCSLCKTRMIOS
const TIOCSPGRP = std.TIOCSPGRP
const TIOCSPTLCK = std.TIOCSPTLCK
const TIOCSRS485 = std.TIOCSRS485
const TIOCSSERIAL = std.TIOCSSERIAL
const TIOCSSOFTCAR = std.TIOCSSOFTCAR
const TIOCSTI = std.TIOCSTI
const TIOCSWINSZ = std.TIOCSWINSZ
const TOSTOP = std.TOSTOP
const TUNATTACHFILTER = std.TUNATTACHFILTER
const TUNDETACHFILTER = std.TUNDETACHFILTER
const TUNGETFEATURES = std.TUNGETFEATURES
const TUNGETIFF = std.TUNGETIFF
const TUNGETSNDBUF = std.TUNGETSNDBUF
const TUNGETVNETHDRSZ = std.TUNGETVNETHDRSZ
const TUNSETDEBUG = std.TUNSETDEBUG
const TUNSETGROUP = std.TUNSETGROUP
const TUNSETIFF = std.TUNSETIFF
const TUNSETLINK = std.TUNSETLINK
const TUNSETNOCSUM = std.TUNSETNOCSUM
const TUNSETOFFLOAD = std.TUNSETOFFLOAD
const TUNSETOWNER = std.TUNSETOWNER
const TUNSETPERSIST = std.TUNSETPERSIST
const TUNSETSNDBUF = std.TUNSETSNDBUF
const TUNSETTXFILTER = std.TUNSETTXFILTER
const TUNSETVNETHDRSZ = std.TUNSETVNETHDRSZ

var Tee = std.Tee

type Termios = std.Termios

var Tgkill = std.Tgkill
var Time = std.Time

type Time_t = std.Time_t

var Times = std.Times

type Timespec = std.Timespec

var TimespecToNsec = std.TimespecToNsec

type Timeval = std.Timeval

var TimevalToNsec = std.TimevalToNsec

type Timex = std.Timex
type Tms = std.Tms

var Truncate = std.Truncate

type Ucred = std.Ucred

var Uname = std.Uname
var UnixCredentials = std.UnixCredentials
var UnixRights = std.UnixRights
var Unlinkat = std.Unlinkat
var Unmount = std.Unmount
var Unsetenv = std.Unsetenv
var Unshare = std.Unshare
var Ustat = std.Ustat

type Ustat_t = std.Ustat_t
type Utimbuf = std.Utimbuf

var Utime = std.Utime
var Utimes = std.Utimes
var UtimesNano = std.UtimesNano

type Utsname = std.Utsname

const VDISCARD = std.VDISCARD
const VEOF = std.VEOF
const VEOL = std.VEOL
const VEOL2 = std.VEOL2
const VERASE = std.VERASE
const VINTR = std.VINTR
const VKILL = std.VKILL
const VLNEXT = std.VLNEXT
const VMIN = std.VMIN
const VQUIT = std.VQUIT
const VREPRINT = std.VREPRINT
const VSTART = std.VSTART
const VSTOP = std.VSTOP
const VSUSP = std.VSUSP
const VSWTC = std.VSWTC
const VTIME = std.VTIME
const VWERASE = std.VWERASE
const WALL = std.WALL
const WCLONE = std.WCLONE
const WCONTINUED = std.WCONTINUED
const WEXITED = std.WEXITED
const WNOHANG = std.WNOHANG
const WNOTHREAD = std.WNOTHREAD
const WNOWAIT = std.WNOWAIT
const WORDSIZE = std.WORDSIZE
const WSTOPPED = std.WSTOPPED
const WUNTRACED = std.WUNTRACED

var Wait4 = std.Wait4

type WaitStatus = std.WaitStatus

var Write = std.Write

const XCASE = std.XCASE
