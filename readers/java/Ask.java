import qiniu.uip.db.IPFormatException;
import qiniu.uip.db.InvalidDatabaseException;
import qiniu.uip.db.IpInfo;
import qiniu.uip.db.Query;
import qiniu.uip.db.VersionInfo;

import java.io.BufferedReader;
import java.io.InputStreamReader;
import java.nio.file.Files;
import java.nio.file.Paths;

/** Asks the Java reader: one request per line on stdin, one answer line starting with @@ per request on stdout. */
public final class Ask {
    static String q(String s) {
        if (s == null) {
            return "\"<null>\"";
        }
        StringBuilder b = new StringBuilder("\"");
        for (char c : s.toCharArray()) {
            if (c < ' ' || c > '~' || c == '"' || c == '\\') {
                b.append(String.format("\\u%04x", (int) c));
            } else {
                b.append(c);
            }
        }
        return b.append('"').toString();
    }

    static String list(String... a) {
        StringBuilder b = new StringBuilder("[");
        for (int i = 0; a != null && i < a.length; i++) {
            b.append(i > 0 ? "," : "").append(q(a[i]));
        }
        return b.append("]").toString();
    }

    static String rec(IpInfo i) {
        return "{\"out\":\"ok\",\"rec\":" + list(i.country, i.province, i.city, i.isp, i.asn, i.continent, i.line, i.district) + "}";
    }

    static byte[] bytes(String hex) {
        byte[] b = new byte[hex.length() / 2];
        for (int i = 0; i < b.length; i++) {
            b[i] = (byte) Integer.parseInt(hex.substring(2 * i, 2 * i + 2), 16);
        }
        return b;
    }

    static IpInfo last; // what was answered last

    static String ask(IpInfo i) {
        last = i;
        return rec(i);
    }

    static String outcome(Query db, String addr, boolean change) {
        try {
            IpInfo i = db.query(addr);
            String r = rec(i);
            if (change) {
                i.country = i.province = i.city = i.isp = i.asn = i.continent = i.line = i.district = "spoilt";
            }
            return r;
        } catch (IPFormatException | java.io.IOException e) {
            return "{\"out\":\"err\",\"rec\":[]}";
        } catch (Throwable e) {
            return "{\"out\":\"panic\",\"rec\":[" + q(e.toString()) + "]}";
        }
    }

    /** par THREADS ROUNDS SEED FILE ADDR..: threads ask one database, some also open others; all outcomes per address. */
    static String par(Query shared, String arg) throws Exception {
        String[] a = arg.split(" ");
        int threads = Integer.parseInt(a[0]), rounds = Integer.parseInt(a[1]), seed = Integer.parseInt(a[2]);
        String file = a[3];
        int n = a.length - 4;
        java.util.List<java.util.Set<String>> all = new java.util.ArrayList<>();
        for (int i = 0; i <= n; i++) {
            all.add(new java.util.TreeSet<>());
        }
        java.util.concurrent.CountDownLatch start = new java.util.concurrent.CountDownLatch(1);
        Thread[] ts = new Thread[threads];
        for (int t = 0; t < threads; t++) {
            final int id = t;
            ts[t] = new Thread(() -> {
                java.util.Random r = new java.util.Random(seed * 1000L + id);
                java.util.List<java.util.Set<String>> mine = new java.util.ArrayList<>();
                for (int i = 0; i <= n; i++) {
                    mine.add(new java.util.TreeSet<>());
                }
                try {
                    start.await();
                    Query db = shared;
                    for (int k = 0; k < rounds; k++) {
                        int i = r.nextInt(n);
                        mine.get(i).add(outcome(db, a[4 + i], r.nextInt(3) == 0));
                        if (k % 64 == 0) {
                            VersionInfo v = db.version();
                            mine.get(n).add(v.version + " " + v.ipType + " " + v.count + " " + v.build + " " + list(v.languages) + list(v.extraInfo));
                            v.version = "spoilt";
                            v.count = 77;
                            if (v.languages != null && v.languages.length > 0) {
                                v.languages[0] = "spoilt";
                            }
                            if (v.extraInfo != null && v.extraInfo.length > 0) {
                                v.extraInfo[0] = "spoilt";
                            }
                        }
                        if (k % 512 == 511) {
                            db = id % 2 == 0 || db != shared ? shared : Query.create(file);
                        }
                    }
                } catch (Throwable e) {
                    mine.get(n).add("thread ends with " + e);
                }
                synchronized (all) {
                    for (int i = 0; i <= n; i++) {
                        all.get(i).addAll(mine.get(i));
                    }
                }
            });
            ts[t].setDaemon(true);
            ts[t].start();
        }
        start.countDown();
        long end = System.currentTimeMillis() + 20000;
        for (Thread t : ts) {
            t.join(Math.max(1, end - System.currentTimeMillis()));
            if (t.isAlive()) {
                return "{\"out\":\"hang\"}";
            }
        }
        StringBuilder b = new StringBuilder("{\"out\":\"ok\",\"all\":[");
        for (int i = 0; i < n; i++) {
            b.append(i > 0 ? "," : "").append("[").append(String.join(",", all.get(i))).append("]");
        }
        return b.append("],\"vers\":").append(list(all.get(n).toArray(new String[0]))).append("}").toString();
    }

    public static void main(String[] args) throws Exception {
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, "UTF-8"));
        System.setErr(new java.io.PrintStream(new java.io.OutputStream() {
            @Override
            public void write(int b) {
            }
        }));
        Query db = null;
        for (String line = in.readLine(); line != null; line = in.readLine()) {
            int sp = line.indexOf(' ');
            String op = sp < 0 ? line : line.substring(0, sp);
            String arg = sp < 0 ? "" : line.substring(sp + 1);
            String out;
            try {
                switch (op) {
                    case "open":
                    case "openbytes":
                        db = null;
                        db = op.equals("open") ? Query.create(arg) : Query.create(Files.readAllBytes(Paths.get(arg)), ".ipdb");
                        VersionInfo v = db.version();
                        out = "{\"out\":\"ok\",\"ver\":{\"version\":" + q(v.version) + ",\"type\":" + v.ipType + ",\"count\":" + v.count + ",\"build\":" + v.build
                            + ",\"langs\":" + list(v.languages) + ",\"extra\":" + list(v.extraInfo) + ",\"v4\":" + v.hasIpV4() + ",\"v6\":" + v.hasIpV6() + "}}";
                        break;
                    case "str":
                        out = ask(db.query(arg));
                        break;
                    case "bytes":
                        out = ask(db.query(bytes(arg)));
                        break;
                    case "spoil": // the caller changes the record it got
                        if (last != null) {
                            last.country = last.province = last.city = last.isp = last.asn = last.continent = last.line = last.district = "spoilt";
                        }
                        out = "{\"out\":\"ok\"}";
                        break;
                    case "par":
                        out = par(db, arg);
                        break;
                    default:
                        out = "{\"out\":\"unknown request\"}";
                }
            } catch (IPFormatException | java.io.IOException e) {
                out = "{\"out\":\"err\",\"why\":" + q(String.valueOf(e.getMessage())) + "}";
            } catch (Throwable e) {
                out = "{\"out\":\"panic\",\"why\":" + q(e.toString()) + "}";
            }
            System.out.println("\n@@" + out);
            System.out.flush();
        }
    }
}
