package org.glassfish.jersey.jetty;
public class JettyHttpContainerFactory {
    public static org.glassfish.jersey.server.ResourceConfig last;
    public static org.eclipse.jetty.server.Server createServer(java.net.URI u, org.glassfish.jersey.server.ResourceConfig c) { last = c; c.bind(); return new org.eclipse.jetty.server.Server(); }
}
