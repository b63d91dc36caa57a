enum auth_flavor {
   AUTH_NONE       = 0,
   AUTH_UNIX       = 1,
   AUTH_SHORT      = 2,
   AUTH_DES        = 3 };

struct opaque_auth {
   auth_flavor flavor;
   opaque body<400>;
};

enum msg_type {
   CALL  = 0,
   REPLY = 1 };

enum reply_stat {
   MSG_ACCEPTED = 0,
   MSG_DENIED   = 1 };

enum accept_stat {
   SUCCESS       = 0,
   PROG_UNAVAIL  = 1,
   PROG_MISMATCH = 2,
   PROC_UNAVAIL  = 3,
   GARBAGE_ARGS  = 4   };

enum reject_stat {
   RPC_MISMATCH = 0,
   AUTH_ERROR = 1     };

enum auth_stat {
   AUTH_BADCRED      = 1,
   AUTH_REJECTEDCRED = 2,
   AUTH_BADVERF      = 3,
   AUTH_REJECTEDVERF = 4,
   AUTH_TOOWEAK      = 5    };

struct rpc_msg {
   unsigned int xid;
   union switch (msg_type mtype) {
   case CALL:
      call_body cbody;
   case REPLY:
      reply_body rbody;
   } body;
};

struct call_body {
   unsigned int rpcvers;
   unsigned int prog;
   unsigned int vers;
   unsigned int proc;
   opaque_auth  cred;
   opaque_auth  verf;

};

union reply_body switch (reply_stat stat) {
case MSG_ACCEPTED:
   accepted_reply areply;
case MSG_DENIED:
   rejected_reply rreply;
};

struct accepted_reply {
   opaque_auth verf;
   union switch (accept_stat stat) {
   case SUCCESS:
      opaque results[0];

   case PROG_MISMATCH:
      struct {
         unsigned int low;
         unsigned int high;
      } mismatch_info;
   default:

      void;
   } reply_data;
};

union rejected_reply switch (reject_stat stat) {
case RPC_MISMATCH:
   struct {
      unsigned int low;
      unsigned int high;
   } mismatch_info;
case AUTH_ERROR:
   auth_stat astat;
};

struct auth_unix {
   unsigned int stamp;
   string machinename<255>;
   unsigned int uid;
   unsigned int gid;
   unsigned int gids<16>;
};

const PMAP_PORT = 111;

struct mapping {
   unsigned int prog;
   unsigned int vers;
   unsigned int prot;
   unsigned int port;
};

const IPPROTO_TCP = 6;
const IPPROTO_UDP = 17;

typedef pmaplistelem *pmaplist;

struct pmaplistelem {
   mapping map;
   pmaplist next;
};

struct call_args {
   unsigned int prog;
   unsigned int vers;
   unsigned int proc;
   opaque args<>;
};

struct call_result {
   unsigned int port;
   opaque res<>;
};

typedef unsigned int uint32;
typedef bool xbool;

program PMAP_PROG {
   version PMAP_VERS {
      void PMAPPROC_NULL(void)                = 0;
      xbool PMAPPROC_SET(mapping)             = 1;
      xbool PMAPPROC_UNSET(mapping)           = 2;
      uint32 PMAPPROC_GETPORT(mapping)        = 3;
      pmaplist PMAPPROC_DUMP(void)            = 4;
      call_result PMAPPROC_CALLIT(call_args)  = 5;
   } = 2;
} = 100000;
