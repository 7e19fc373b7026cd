package org.eclipse.jetty.server;
public class Server { public boolean started; public void start() throws Exception { started = true; } public void join() throws InterruptedException {} }
