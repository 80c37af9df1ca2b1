/* Prints size and offsets of the C structures of pttbbs (include/pttstruct.h)
 * and FormosaBBS: the independent layout oracle of the record monitors.
 * The shared memory structure depends on -DMAX_USERS -DIDLEN_ -DHASH_BITS
 * -DUSE_COOLDOWN -DALIGN. */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>

#define IDLEN 12
#define IPV4LEN 15
#define PASSLEN 14
#define REGLEN 38
#define REALNAMESZ 20
#define NICKNAMESZ 24
#define EMAILSZ 50
#define ADDRESSSZ 50
#define CAREERSZ 40
#define PHONESZ 20
#define BTLEN 48
#define TTLEN 64
#define FNLEN 28
#define MAX_FRIEND 256
#define MAX_REJECT 32
#define MAX_MSGS 10
typedef int32_t time4_t;

typedef struct {
    uint32_t version;
    char userid[IDLEN + 1];
    char realname[REALNAMESZ];
    char nickname[NICKNAMESZ];
    char passwd[PASSLEN];
    char pad_1;
    uint32_t uflag;
    uint32_t _unused1;
    uint32_t userlevel;
    uint32_t numlogindays;
    uint32_t numposts;
    time4_t firstlogin;
    time4_t lastlogin;
    char lasthost[IPV4LEN + 1];
    int32_t money;
    char _unused2[4];
    char email[EMAILSZ];
    char address[ADDRESSSZ];
    char justify[REGLEN + 1];
    char pad_2[3];
    uint8_t over_18;
    uint8_t pager_ui_type;
    uint8_t pager;
    uint8_t invisible;
    char _unused4[2];
    uint32_t exmailbox;
    char _unused5[4];
    char career[CAREERSZ];
    char phone[PHONESZ];
    uint32_t _unused6;
    char chkpad1[44];
    uint32_t role;
    time4_t lastseen;
    time4_t timesetangel;
    time4_t timeplayangel;
    time4_t lastsong;
    uint32_t loginview;
    uint8_t _unused8;
    uint8_t pad_3;
    uint16_t vl_count;
    uint16_t five_win, five_lose, five_tie;
    uint16_t chc_win, chc_lose, chc_tie;
    uint16_t conn6_win, conn6_lose, conn6_tie;
    char _unused9[2];
    uint16_t go_win, go_lose, go_tie;
    uint16_t dark_win, dark_lose;
    uint8_t ua_version;
    uint8_t signature;
    uint8_t _unused10;
    uint8_t badpost;
    uint16_t dark_tie;
    char myangel[IDLEN + 1];
    char pad_4;
    uint16_t chess_elo_rating;
    uint32_t withme;
    time4_t timeremovebadpost;
    time4_t timeviolatelaw;
    char pad_tail[28];
} userec_t;

typedef struct {
    char brdname[IDLEN + 1];
    char title[BTLEN + 1];
    char BM[IDLEN * 3 + 3];
    char pad1[3];
    uint32_t brdattr;
    char chesscountry;
    uint8_t vote_limit_posts;
    uint8_t vote_limit_logins;
    uint8_t pad2_1[1];
    time4_t bupdate;
    uint8_t post_limit_posts;
    uint8_t post_limit_logins;
    uint8_t pad2_2[1];
    uint8_t bvote;
    time4_t vtime;
    uint32_t level;
    time4_t perm_reload;
    int32_t gid;
    int32_t next[2];
    int32_t firstchild[2];
    int32_t parent;
    int32_t childcount;
    int32_t nuser;
    int32_t postexpire;
    time4_t endgamble;
    char posttype[33];
    char posttype_f;
    uint8_t fastrecommend_pause;
    uint8_t vote_limit_badpost;
    uint8_t post_limit_badpost;
    char pad3[3];
    time4_t SRexpire;
    char pad4[40];
} boardheader_t;

typedef struct {
    char filename[FNLEN];
    time4_t modified;
    char pad;
    int8_t recommend;
    char owner[IDLEN + 2];
    char date[6];
    char title[TTLEN + 1];
    char pad2;
    union {
        int32_t money;
        int32_t anon_uid;
        struct { uint8_t posts, logins, regtime, badpost; } vote_limits;
    } multi;
    uint8_t filemode;
    char pad3[3];
} fileheader_t;

typedef struct {
    int32_t pid;
    char userid[IDLEN + 1];
    char last_call_in[76];
    int32_t msgmode;
} msgque_t;

typedef struct {
    int32_t uid;
    int32_t pid;
    int32_t sockaddr;
    uint32_t userlevel;
    char userid[IDLEN + 1];
    char nickname[24];
    char from[27];
    uint32_t from_ip;
    uint16_t dark_win;
    uint16_t dark_lose;
    char gap_0;
    uint8_t angelpause;
    uint16_t dark_tie;
    int32_t friendtotal;
    int16_t nFriends;
    int16_t _unused3_;
    int32_t myfriend[MAX_FRIEND];
    char gap_1[4];
    uint32_t friend_online[MAX_FRIEND];
    char gap_2[4];
    int32_t reject[MAX_REJECT];
    char gap_3[4];
    char msgcount;
    char _unused4[3];
    msgque_t msgs[MAX_MSGS];
    char gap_4[sizeof(msgque_t)];
    char birth;
    uint8_t active;
    uint8_t invisible;
    uint8_t mode;
    uint8_t pager;
    char _unused5;
    uint16_t conn6_win;
    time4_t lastact;
    char alerts;
    char _unused_mind;
    uint16_t conn6_lose;
    char _unused_mind2;
    uint8_t sig;
    uint16_t conn6_tie;
    int32_t destuid;
    int32_t destuip;
    uint8_t sockactive;
    uint8_t in_chat;
    char chatid[11];
    uint8_t lockmode;
    char turn;
    char mateid[IDLEN + 1];
    char color;
    uint16_t five_win, five_lose, five_tie;
    uint16_t chc_win, chc_lose, chc_tie;
    uint16_t chess_elo_rating;
    uint16_t go_win, go_lose, go_tie;
    uint32_t withme;
    uint32_t brc_id;
    time4_t wbtime;
} userinfo_t;

/* FormosaBBS struct fileheader, 248 bytes */
typedef struct {
    char filename[44];
    char _r0[28];
    int32_t postno;
    char _r1[4];
    char owner[72];
    int32_t mtime;
    char _r2[4];
    char title[67];
    char _r3[21];
} formosa_t;

#ifndef MAX_USERS
#define MAX_USERS 50
#endif
#ifndef IDLEN_
#define IDLEN_ 12
#endif
#ifndef HASH_BITS
#define HASH_BITS 16
#endif
#ifndef ALIGN
#define ALIGN 4
#endif
/* every later member is 4 bytes wide, so only the place of next_in_hash depends
 * on the alignment which is in force */
typedef struct __attribute__((packed)) {
    int32_t version;
    int32_t size;
    char userid[MAX_USERS][IDLEN_ + 1];
    char gap_1[IDLEN_ + 1];
    int32_t next_in_hash[MAX_USERS] __attribute__((aligned(ALIGN)));
    char gap_2[sizeof(int32_t)];
    int32_t money[MAX_USERS];
    char gap_3[sizeof(int32_t)];
#ifdef USE_COOLDOWN
    time4_t cooldowntime[MAX_USERS];
#endif
    char gap_4[sizeof(int32_t)];
    int32_t hash_head[1 << HASH_BITS];
    char gap_5[sizeof(int32_t)];
    int32_t number;
    int32_t loaded;
    userinfo_t uinfo[4];
} shm_t;

#define S(t) printf("%s . 0 %zu\n", #t, sizeof(t))
#define F(t, f) printf("%s %s %zu %zu\n", #t, #f, offsetof(t, f), sizeof(((t *)0)->f))

int main(void) {
    S(userec_t);
    F(userec_t, version); F(userec_t, userid); F(userec_t, realname); F(userec_t, nickname);
    F(userec_t, passwd); F(userec_t, uflag); F(userec_t, userlevel); F(userec_t, numlogindays);
    F(userec_t, numposts); F(userec_t, firstlogin); F(userec_t, lastlogin); F(userec_t, lasthost);
    F(userec_t, money); F(userec_t, email); F(userec_t, address); F(userec_t, justify);
    F(userec_t, over_18); F(userec_t, pager_ui_type); F(userec_t, pager); F(userec_t, invisible);
    F(userec_t, exmailbox); F(userec_t, career); F(userec_t, role); F(userec_t, lastseen);
    F(userec_t, timesetangel); F(userec_t, timeplayangel); F(userec_t, lastsong); F(userec_t, loginview);
    F(userec_t, vl_count); F(userec_t, five_win); F(userec_t, five_lose); F(userec_t, five_tie);
    F(userec_t, chc_win); F(userec_t, chc_lose); F(userec_t, chc_tie); F(userec_t, conn6_win);
    F(userec_t, conn6_lose); F(userec_t, conn6_tie); F(userec_t, go_win); F(userec_t, go_lose);
    F(userec_t, go_tie); F(userec_t, dark_win); F(userec_t, dark_lose); F(userec_t, ua_version);
    F(userec_t, signature); F(userec_t, badpost); F(userec_t, dark_tie); F(userec_t, myangel);
    F(userec_t, chess_elo_rating); F(userec_t, withme); F(userec_t, timeremovebadpost);
    F(userec_t, timeviolatelaw);
    S(boardheader_t);
    F(boardheader_t, brdname); F(boardheader_t, title); F(boardheader_t, BM); F(boardheader_t, brdattr);
    F(boardheader_t, chesscountry); F(boardheader_t, vote_limit_posts); F(boardheader_t, vote_limit_logins);
    F(boardheader_t, bupdate); F(boardheader_t, post_limit_posts); F(boardheader_t, post_limit_logins);
    F(boardheader_t, bvote); F(boardheader_t, vtime); F(boardheader_t, level); F(boardheader_t, perm_reload);
    F(boardheader_t, gid); F(boardheader_t, next[0]); F(boardheader_t, next[1]); F(boardheader_t, firstchild[0]);
    F(boardheader_t, firstchild[1]); F(boardheader_t, parent); F(boardheader_t, childcount); F(boardheader_t, nuser);
    F(boardheader_t, postexpire); F(boardheader_t, endgamble); F(boardheader_t, posttype);
    F(boardheader_t, posttype_f); F(boardheader_t, fastrecommend_pause); F(boardheader_t, vote_limit_badpost);
    F(boardheader_t, post_limit_badpost); F(boardheader_t, SRexpire);
    S(fileheader_t);
    F(fileheader_t, filename); F(fileheader_t, modified); F(fileheader_t, recommend); F(fileheader_t, owner);
    F(fileheader_t, date); F(fileheader_t, title); F(fileheader_t, multi.money); F(fileheader_t, multi.anon_uid);
    F(fileheader_t, multi.vote_limits.posts); F(fileheader_t, multi.vote_limits.logins);
    F(fileheader_t, multi.vote_limits.regtime); F(fileheader_t, multi.vote_limits.badpost);
    F(fileheader_t, filemode);
    S(userinfo_t);
    F(userinfo_t, uid); F(userinfo_t, pid); F(userinfo_t, sockaddr); F(userinfo_t, userlevel);
    F(userinfo_t, userid); F(userinfo_t, nickname); F(userinfo_t, from); F(userinfo_t, from_ip);
    F(userinfo_t, dark_win); F(userinfo_t, dark_lose); F(userinfo_t, angelpause); F(userinfo_t, dark_tie);
    F(userinfo_t, friendtotal); F(userinfo_t, nFriends); F(userinfo_t, myfriend); F(userinfo_t, friend_online);
    F(userinfo_t, reject); F(userinfo_t, msgcount); F(userinfo_t, msgs); F(userinfo_t, birth);
    F(userinfo_t, active); F(userinfo_t, invisible); F(userinfo_t, mode); F(userinfo_t, pager);
    F(userinfo_t, conn6_win); F(userinfo_t, lastact); F(userinfo_t, alerts); F(userinfo_t, conn6_lose);
    F(userinfo_t, sig); F(userinfo_t, conn6_tie); F(userinfo_t, destuid); F(userinfo_t, destuip);
    F(userinfo_t, sockactive); F(userinfo_t, in_chat); F(userinfo_t, chatid); F(userinfo_t, lockmode);
    F(userinfo_t, turn); F(userinfo_t, mateid); F(userinfo_t, color); F(userinfo_t, five_win);
    F(userinfo_t, five_lose); F(userinfo_t, five_tie); F(userinfo_t, chc_win); F(userinfo_t, chc_lose);
    F(userinfo_t, chc_tie); F(userinfo_t, chess_elo_rating); F(userinfo_t, go_win); F(userinfo_t, go_lose);
    F(userinfo_t, go_tie); F(userinfo_t, withme); F(userinfo_t, brc_id); F(userinfo_t, wbtime);
    S(formosa_t);
    F(formosa_t, filename); F(formosa_t, postno); F(formosa_t, owner); F(formosa_t, mtime); F(formosa_t, title);
    S(shm_t);
    F(shm_t, version); F(shm_t, userid); F(shm_t, next_in_hash); F(shm_t, money); F(shm_t, number); F(shm_t, uinfo);
    return 0;
}
